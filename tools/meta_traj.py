from meta import prop
prop("C13", "Trajectories are read whole and played point by point, in order",
 "Reading the text of a trajectory gives exactly its header, names of joints and points, whatever was read before; a text that stops early gives what is complete in it and never blocks, and copies and display describe the same trajectory. The player outputs at each period the next point of the trajectory being played (posture, center of mass, waist, center of pressure, sequence number), begins the next trajectory received when the current one ends, holds the last point when there is none, and takes a trajectory known by its date once.",
 ["histories", "inputs"], "all texts of the grammar, cut anywhere between elements; all histories of trajectories received and periods, with empty and short ones",
 "When the player moves to another trajectory depends on the history of what it has received; texts are unbounded. Neither is compiled by the test build.",
 ["src/tools/trajectory.cpp", "include/sot/core/trajectory.hh", "src/tools/joint-trajectory-entity.cpp", "include/sot/core/joint-trajectory-entity.hh"],
 [("deque_traj_, index_", "trajectories to play and current point", "include/sot/core/joint-trajectory-entity.hh"), ("header_, joint_names_, points_", "a trajectory", "include/sot/core/trajectory.hh")],
 [("parse_string", "src/tools/trajectory.cpp"), ("UpdateTrajectory, UpdatePoint", "src/tools/joint-trajectory-entity.cpp")],
 ["fields of the trajectory", "signals position, com, zmp, waist, seqid", "display"],
 "Numbers are written with a point and without exponent, as the grammar has it. A trajectory of date zero counts as none once another is queued.")
