from meta import prop
prop("C11", "Linear filters follow their equations on the history of the input",
 "The finite impulse response filter outputs, for numbers and vectors with number or matrix coefficients, the sum of its coefficients times the most recent values of its input, one value per period; the derivator outputs zero first and then the difference of successive inputs over the period. The integrator outputs the explicit Euler solution of its differential equation, and its derivative, for any orders, coefficients and sampling period. Coefficients, sizes and periods can be read back as given, and an index out of range, a missing input or a missing initialization is refused without changing anything.",
 ["inputs", "histories"], "all coefficients, orders, values of the input, periods, and moments of change of coefficients and of evaluation",
 "Each output depends on the whole history of the input through circular buffers and memories. None of it is compiled by the test build.",
 ["src/matrix/fir-filter.cpp", "include/sot/core/fir-filter.hh", "src/matrix/derivator.cpp", "include/sot/core/derivator.hh", "src/matrix/integrator-euler.cpp", "include/sot/core/integrator-euler.hh", "src/matrix/integrator-abstract.cpp", "include/sot/core/integrator-abstract.hh"],
 [("data, coefs", "circular history and coefficients", "include/sot/core/fir-filter.hh"), ("memory, initialized", "previous input", "include/sot/core/derivator.hh"), ("inputMemory, outputMemory", "derivatives", "include/sot/core/integrator-euler.hh")],
 [("compute", "include/sot/core/fir-filter.hh"), ("computeDerivation", "include/sot/core/derivator.hh"), ("integrate, initialize", "include/sot/core/integrator-euler.hh")],
 ["signals sout, derivativesout", "commands getElement, getSize, getSamplingPeriod", "display"],
 "All coefficients of a matrix filter are given before it is evaluated and the size of the input is constant. The derivatives remembered at initialization are those the code starts with.")
