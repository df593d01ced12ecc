from meta import prop
prop("C07", "The device integrates the control within the bounds of the robot",
 "At each period the device evaluates its control at the next time and moves the robot by it: as a position, as a velocity, or as an acceleration over the period, the free base moving in its own frame and a control without base part moving only the joints it covers. As soon as checks are on, the state stays within the position bounds and velocities within the velocity bounds, a control that is not a number is refused, and bounds or states of a wrong size are refused without effect. Every period publishes the new state, one step later, with the velocity and the last control, and an error in a periodic call never prevents it.",
 ["histories", "inputs"], "all sizes of robots, control modes, bounds set or not, states, controls with or without base, periods, and histories of them",
 "A bound that is overrun, or memory read outside of bounds that were never set, needs a particular history of modes, sizes and limits. No test of this build compiles the device.",
 ["src/tools/device.cpp", "include/sot/core/device.hh", "src/tools/periodic-call.cpp"],
 [("state_, velocity_", "configuration and velocity", "include/sot/core/device.hh"), ("controlInputType_, sanityCheck_, bounds", "mode and limits", "include/sot/core/device.hh")],
 [("increment", "src/tools/device.cpp"), ("integrate", "src/tools/device.cpp"), ("setState, setRoot, setBounds", "src/tools/device.cpp")],
 ["signals state, velocity, motorcontrol, previousControl, forces", "commands of the device", "errors raised by refused settings"],
 "Exact arithmetic: quarter turns and dyadic numbers. A motion of the base that mixes translation and rotation in one period, states of fewer than 6 values, and controls that are not numbers while checks are off are left out.")
