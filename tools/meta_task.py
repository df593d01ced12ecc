from meta import prop
prop("C03", "A task is the assembly of its features",
 "The error, the derivative of the error and the Jacobian of a task are those of its features, stacked in the order in which they were added, whatever their sizes and however they change; a task without features, with a failing feature or with Jacobians of different widths answers with the documented error. From them each kind of task asks for its own velocity: minus the gain times the error (less the motion of the reference on request), with the change of the error since the previous period for the derivative kind, between the two distances to the bounds per period for the one-sided kind, and as a plain one when the continuous kind has no previous motion to continue.",
 ["histories", "inputs"], "all features (sizes, values, failing or not), all gains, and all histories of adding, clearing, changing and evaluating",
 "The vectors are grown in place and kept between evaluations, and recomputed only when something changed: only the history of sizes and changes shows whether they are right. No test of this build compiles a task.",
 ["src/task/task.cpp", "src/task/task-pd.cpp", "src/task/task-unilateral.cpp", "src/task/task-conti.cpp", "src/task/task-abstract.cpp", "include/sot/core/task.hh", "include/sot/core/exception-abstract.hh"],
 [("featureList", "features in order", "include/sot/core/task.hh"), ("previousError", "error of the previous evaluation", "include/sot/core/task-pd.hh")],
 [("computeError, computeJacobian, computeErrorTimeDerivative", "src/task/task.cpp"), ("computeTaskExponentialDecrease", "src/task/task.cpp"), ("computeErrorDot, computeTaskModif", "src/task/task-pd.cpp"), ("computeTaskUnilateral", "src/task/task-unilateral.cpp")],
 ["signals error, errorTimeDerivative, jacobian, task", "commands add, clear, list, setWithDerivative, setBeta", "display, writeGraph"],
 "Every transition of the four kinds of tasks with two features each, and random histories with features of 0 to 5 rows and 1 to 7 columns. Outputs are expected to follow the features through the signal graph, on a stand-in of dynamic-graph. Error derivatives of another size than the error are left out.")
prop("C04", "A feature gives the selected part of its error and its derivative",
 "A feature outputs exactly the selected components, in order, of the difference between its value and that of its current reference, the opposite of the derivative of that reference, and the same rows of the Jacobian; its dimension is their number, and sizes that do not fit or missing inputs are refused with an error. Outputs always follow the latest inputs, selection and reference, and setting, replacing or removing a reference has no other effect. For the other kinds (half squared error, direction, posture, image point, joint limits) the error is the documented one and the Jacobian is its derivative.",
 ["inputs", "histories"], "all values, sizes, selections with default tails, references among several features, and all histories of changes and evaluations",
 "Which outputs are stale after a change depends on the order of changes and evaluations; sizes that do not fit lead outside of arrays. The tests of these features are not built here.",
 ["src/feature/feature-abstract.cpp", "include/sot/core/feature-abstract.hh", "src/feature/feature-generic.cpp", "src/feature/feature-1d.cpp", "src/feature/feature-vector3.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-visual-point.cpp", "src/feature/feature-joint-limits.cpp", "src/feature/feature-joint-limits-command.h"],
 [("selection", "selected components", "include/sot/core/feature-abstract.hh"), ("reference", "feature to be followed", "include/sot/core/feature-abstract.hh"), ("activeDofs", "controlled joints of a posture", "include/sot/core/feature-posture.hh")],
 [("computeError, computeJacobian, computeErrorDot, getDimension", "src/feature"), ("setReference and dependencies", "include/sot/core/feature-abstract.hh")],
 ["signals error, errordot, jacobian, dim", "commands setReference, getReference, selectDof, actuate", "writeGraph"],
 "Depths, widths of limits and rotations are chosen so that the arithmetic is exact. A feature that is its own reference, a posture whose size changes between two selections, and vectors of different lengths for joint limits are left out.")
