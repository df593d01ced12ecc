from meta import prop
TP = "TLA+ specification checked with TLC; every transition of its state graph replayed in the real Python modules, and recorded histories of the real code validated by TLC against it"
prop("C23", "The calendar fires each action exactly at its times",
 "An action registered at a time, a set of times or a period is executed exactly once at each of these times and never at another, in the order of registration, whatever actions do when they fire (including removing themselves or registering others). Fast-forwarding executes, in order of time, everything due up to the chosen time.",
 ["histories", "inputs"], "all sequences of registrations, removals, ticks and jumps, including registrations made by the actions themselves",
 "Actions modify the calendar that is being walked; which action is skipped or run twice depends on the history. No test exists for it.",
 ["src/dynamic_graph/sot/core/utils/attime.py"], [("events, periodic, ping", "registered actions", "src/dynamic_graph/sot/core/utils/attime.py")], [("run, registerEvent, rmEventPeriodic, fastForward", "src/dynamic_graph/sot/core/utils/attime.py")], ["executions of the registered actions", "printed calendar"],
 "All histories over 3 actions and short horizons, long random ones validated by TLC. Registering for the very time being run is left out.", TP)
prop("C24", "The recorded motion is the sampled motion, and is replayed as recorded",
 "The recorder keeps the position, the velocity and the zero-moment point expressed in the waist exactly at the multiples of its period, and nothing else. Restoring a time or exporting the motion gives back those very samples with their times, and never alters them.",
 ["histories", "inputs"], "all periods, motions, sequences of recording, restoring and exporting",
 "The correspondence between sample numbers, times and columns must hold for every period and length; no test exists for it.",
 ["src/dynamic_graph/sot/core/utils/history.py"], [("q, qdot, zmp", "recorded samples", "src/dynamic_graph/sot/core/utils/history.py")], [("record, restore, dumpToOpenHRP", "src/dynamic_graph/sot/core/utils/history.py")], ["printed commands", "exported files"],
 "Robot of 36 degrees of freedom; waist orientations are quarter turns, so that the specification is exact.", TP)
prop("C26", "Conversions between rotations, positions and tuples are consistent",
 "The conversions between homogeneous matrices, roll-pitch-yaw angles, quaternions, tuples and vectors all denote the same rigid motion: composing a conversion with its inverse gives the identity, and products of motions are preserved. The basis completed from a given vector is orthonormal and direct.",
 ["inputs", "histories"], "all rotations generated by quarter turns, all integer translations, compositions of any length",
 "The existing test converts a few hand-written values; the singular positions and the signs of conversions are points that sampling misses.",
 ["src/dynamic_graph/sot/core/matrix_util.py"], [("pose", "current rigid motion", "src/dynamic_graph/sot/core/matrix_util.py")], [("matrixToRPY, RPYToMatrix, quaternionToMatrix, rpy2tr, generateOrthonormalM, rotate", "src/dynamic_graph/sot/core/matrix_util.py")], ["returned tuples and matrices"],
 "The 24 rotations of the cube and integer translations, where the algebra is exact; generic angles in recorded histories only compared for consistency.", TP)
prop("C25", "Ready-made tasks are wired to the robot and go where they are told",
 "A ready-made task or position feature reads exactly the robot quantities it was created for, is compared with its own reference, and drives its own gain, whatever other tasks exist. Giving it a target in any accepted form (translation, matrix, translation and angles, posture by limb) sets exactly that reference, selection and gain, and switching its operational-point correction on and off any number of times gives back the initial wiring.",
 ["histories", "inputs"], "all kinds of tasks, all accepted forms of positions, gains and selections, all sequences of changes on several tasks",
 "The existing tests only import these modules. Which signal a task listens to after a sequence of switches is a statement about histories.",
 ["src/dynamic_graph/sot/core/meta_task_6d.py", "src/dynamic_graph/sot/core/meta_tasks.py", "src/dynamic_graph/sot/core/meta_tasks_kine.py", "src/dynamic_graph/sot/core/meta_tasks_kine_relative.py", "src/dynamic_graph/sot/core/meta_task_posture.py", "src/dynamic_graph/sot/core/meta_task_visual_point.py", "src/dynamic_graph/sot/core/feature_position.py", "src/dynamic_graph/sot/core/feature_position_relative.py"],
 [("plugs", "source of each input signal", "src/dynamic_graph/sot/core/meta_task_6d.py:plugEverything,opmodif")], [("plugEverything, opmodif", "src/dynamic_graph/sot/core/meta_task_6d.py"), ("generic6dReference, setGain, gotoNd", "src/dynamic_graph/sot/core/meta_tasks.py"), ("gotoq", "src/dynamic_graph/sot/core/meta_task_posture.py")], ["sources and values of the input signals of the entities", "commands received by the entities"],
 "The entities are stand-ins which record plugs, values and commands. Angles are quarter turns. Lists as positions are left out (the code announces them as to do).", TP)
prop("C28", "A loop in a thread obeys play, pause, once, quit at any moment",
 "The function of an interruptible loop is run by its thread only while the loop is playing, exactly once after a request for one run, and never again after it was asked to quit or while paused, at whatever moment of the loop the command arrives. Playing twice is harmless, and a loop that has ended can be restarted.",
 ["schedules", "histories"], "all interleavings of the commands with the steps of the thread (before it begins, in the body, in its pause)",
 "Whether a command is lost depends on the moment it arrives; free-running tests cannot place it there.",
 ["src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py"], [("isPlay, isOnce, isQuit", "commands to the thread", "src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py")], [("run, play, pause, once, quit, restart", "src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py")], ["executions of the function", "iter", "is_alive"],
 "The thread is stopped at three gates, so commands interleave at this granularity and not between two assignments of the loop.", TP)
prop("C31", "The viewer shows and logs every motion of the robot, once",
 "Once a robot is attached to a viewer, each of its motions is followed by exactly one refresh with its complete current state (completed by zeros when asked) under the name of its model, and by its registered displays; attaching again, attaching other robots or failing to attach never loses, duplicates or blocks a motion. The log contains exactly what the viewer was sent, with its time, by element.",
 ["histories", "inputs"], "all sequences of attachments (successful or not), motions, displays and logging, with several robots and classes",
 "Attaching replaces the methods of a class; what happens at the second attachment or for another robot is a question of histories. No test exists for it.",
 ["src/dynamic_graph/sot/core/utils/viewer_helper.py", "src/dynamic_graph/sot/core/utils/viewer_loger.py"], [("methods of the class of robots", "replaced by those that refresh", "src/dynamic_graph/sot/core/utils/viewer_helper.py:addRobotViewer")], [("addRobotViewer, refreshView, stateFullSize", "src/dynamic_graph/sot/core/utils/viewer_helper.py"), ("updateElementConfig", "src/dynamic_graph/sot/core/utils/viewer_loger.py")], ["calls received by the viewer", "log files"],
 "Robots of one class use the same number of additional zeros. The files of the log are redirected to a scratch directory.", TP)
