from meta import prop
prop("C21", "Operator entities compute the function their name announces",
 "Each operator entity outputs, at every evaluation, exactly the function of its current inputs that it is named after: selection, stacking, sums, products, differences, inverses, norms, weighted sums, comparisons, logic, temporal convolution, and conversions between all representations of rotations and poses, which describe the same motion before and after. Its settings (selected rows, index, gains, coefficients, sizes, comparison mode) take effect as given and start from defined values, entities with any number of inputs follow the inputs added, removed and renamed, and a refused request changes nothing. Constants return the value last given, and the change of operational point transforms both position and Jacobian by the given fixed transformation, on the side chosen.",
 ["inputs", "histories"], "all values of inputs, all rotations and positions (on exact families), all settings and sequences of changes of settings, inputs and evaluations",
 "The identities hold for every input and some outputs keep memory of earlier inputs; the test build compiles none of these entities.",
 ["src/matrix/operator.hh", "src/matrix/operator.cpp", "include/sot/core/unary-op.hh", "include/sot/core/binary-op.hh", "include/sot/core/variadic-op.hh", "src/matrix/vector-constant.cpp", "src/matrix/matrix-constant.cpp", "src/matrix/double-constant.cpp", "src/math/op-point-modifier.cpp", "include/sot/core/op-point-modifier.hh"],
 [("op", "settings of the operator", "src/matrix/operator.hh"), ("signalsIN, coeffs", "inputs and their coefficients", "include/sot/core/variadic-op.hh"), ("memory", "past inputs of the convolution", "src/matrix/operator.hh"), ("transformation, isEndEffector", "change of point", "include/sot/core/op-point-modifier.hh")],
 [("operator()", "src/matrix/operator.hh"), ("setSignalNumber, addSignal, removeSignal", "include/sot/core/variadic-op.hh"), ("jacobianSOUT_function, positionSOUT_function", "src/math/op-point-modifier.cpp")],
 ["signal sout", "signals jacobian, position", "commands of the entities"],
 "Rotations come from exact families (Pythagorean angles, the groups of the cube) so that TLC computes in integers; conversions are compared as the motion they describe. Sizes and indices out of the inputs are left out.")
