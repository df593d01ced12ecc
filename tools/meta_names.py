from meta import prop
prop("C15", "Names denote the living features and tasks, and graphs describe them",
 "A feature or a task is found under its name from its creation to its destruction, and never after: an unknown name is refused, a name in use is refused to another object, and the name of a destroyed object is free again. References between features hold only between features of one kind and change only when asked. The graphs written for the pool, the stack, a task or a feature are well-formed and show exactly the objects, links and order in force.",
 ["histories", "inputs"], "all sequences of creations, destructions, references, additions to tasks and stacks, for all names and file names",
 "A dangling name shows only after a destruction in the middle of a longer history; the test build compiles none of these classes.",
 ["src/factory/pool.cpp", "src/feature/feature-abstract.cpp", "src/task/task-abstract.cpp", "src/task/task.cpp", "src/sot/sot.cpp"],
 [("task, feature", "names of the pool", "include/sot/core/pool.hh"), ("ptr", "reference of a feature", "include/sot/core/feature-abstract.hh"), ("featureList, stack", "what the graphs show", "src/task/task.cpp")],
 [("registerTask, getTask, registerFeature, getFeature, writeGraph", "src/factory/pool.cpp"), ("setReferenceByName, getReferenceByName, writeGraph", "src/feature/feature-abstract.cpp"), ("addFeatureFromName, writeGraph", "src/task/task.cpp"), ("writeGraph", "src/sot/sot.cpp")],
 ["commands setReference, getReference, add, push, clear", "file written by writeGraph", "exceptions on unknown or used names"],
 "An object is destroyed only when no other one refers to it. Names that contain a double quote are left out.")
prop("C32", "A recording is replayed row by row, whole and in order",
 "The rows of the files loaded, in order, come out one per period with the selected columns, from the first one, after loading, rewinding or clearing; the last row is held until more data are loaded. Lines may be of any length; blank lines, comments and what follows the numbers are ignored. The matrix is the row of the same period, given the current shape.",
 ["inputs", "histories"], "all files of numbers, all selections and shapes, all sequences of loads, clears, rewinds and evaluations",
 "The row returned depends on all loads and periods before; the test build does not compile this entity.",
 ["src/traces/reader.cpp"],
 [("dataSet, currentData, iteratorSet", "data and place in it", "src/traces/reader.cpp"), ("rows, cols", "shape of the matrix", "src/traces/reader.cpp")],
 [("load, clear, rewind, getNextData, getNextMatrix", "src/traces/reader.cpp")],
 ["signals vector, matrix", "commands load, clear, rewind, resize"],
 "A matrix larger than the row is left out, as are numbers written as words (nan, inf).")
