from meta import prop
prop("C16", "Robot data is one shared store, and conversions of poses are inverses",
 "Every server given the same robot name reads and writes the same data; each name has one id and the name of an id is one that currently has it, unknown names, ids and limits give the documented defaults, parameters are read back as the text or value that was stored or refused, and orders before initialisation change nothing. Conversions between the two conventions permute the joints, turn the velocity of the base into and from the world frame, and exchange rotation and roll-pitch-yaw angles, each the inverse of the other including at the poles. The joints said to follow another are exactly those of the description, in order.",
 ["histories", "inputs"], "all histories of orders by several servers over several robots; all permutations of joints and orientations of the base",
 "Sharing and stale names only show over histories with several servers; conversions must hold for every permutation and orientation, poles and opposite quaternions included. The module is not compiled by the test build.",
 ["src/tools/robot-utils.cpp", "include/sot/core/robot-utils.hh", "src/tools/parameter-server.cpp", "include/sot/core/parameter-server.hh"],
 [("name to robot map", "the robots of the program", "src/tools/robot-utils.cpp"), ("m_name_to_id, m_id_to_name, m_limits_map, m_urdf_to_sot, m_force_util", "data of a robot", "include/sot/core/robot-utils.hh")],
 [("set_name_to_id, set_urdf_to_sot, conversions, base_se3_to_sot", "src/tools/robot-utils.cpp"), ("init, init_simple, set*, get*", "src/tools/parameter-server.cpp")],
 ["commands of the server", "data of the robot", "converted vectors", "display"],
 "Each history runs in a process of its own, as robots last as long as the program. Angles are Pythagorean, so that the oracle is exact. Maps that are not permutations and vectors of wrong sizes are left out.")
