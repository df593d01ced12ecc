from meta import prop
prop("C22", "Limiters never let a command past the limits they guard",
 "A velocity command passes the joint limiter unchanged when the position it leads to stays strictly inside the limits, and becomes zero otherwise, joint by joint, with free-flyer components left alone. The neck limiter bounds the tilt by its affine function of the pan, on the side given by its sign, and changes nothing else; the gripper control moves the selected joints from their position towards the desired one, never beyond, by a fraction that shrinks while the torque exceeds its limit in the direction of motion and grows back otherwise. The workspace clamp switches between position and orientation control as its mode says and gives the reference that follows from the position relative to the given frame, at every date from the first.",
 ["inputs", "histories"], "all vectors of positions, limits, torques and commands, all selections, all poses of the cube group, all sequences of settings and evaluations",
 "The limits must hold for every command and after every history of torques; the test build compiles none of these entities.",
 ["src/tools/joint-limitator.cpp", "src/tools/neck-limitation.cpp", "src/tools/gripper-control.cpp", "src/tools/clamp-workspace.cpp"],
 [("factor, offset", "reduction of the gripper's motion", "src/tools/gripper-control.cpp"), ("signTilt, coefficients", "bound of the tilt", "src/tools/neck-limitation.cpp"), ("timeUpdate, handref", "date and value of the clamped reference", "src/tools/clamp-workspace.cpp")],
 [("computeControl", "src/tools/joint-limitator.cpp"), ("computeJointLimitation", "src/tools/neck-limitation.cpp"), ("computeIncrement, computeDesiredPosition", "src/tools/gripper-control.cpp"), ("update", "src/tools/clamp-workspace.cpp")],
 ["signals control, widthJl", "signal jointLimited", "signal reference", "signals alpha, alphabar, ref"],
 "Integers with exact scalings (periods of 1/200 s, factors that are powers of two). Vectors of inconsistent sizes are left out; mode and frame of the workspace clamp cannot be changed from outside.")
prop("C27", "Gains and references evolve exactly as their law prescribes",
 "Adaptive and hyperbolic gains take, for every error, the value of their law with the parameters last given, by values or by a point to pass through, and a constant one stays constant. A smooth reach goes from the value measured when it is armed to its goal in exactly the given number of periods, stays between both meanwhile and at the goal afterwards; periodic motions repeat with their period and phase at all dates, also before their initial date. The centre of mass reference is followed during the motion and a fixed time after it stops, then frozen; moving averages and gradient ascents accumulate each input once per period.",
 ["inputs", "histories"], "all parameters, errors, goals and dates (on values where the law is rational), all sequences of settings and evaluations",
 "These laws keep memory of past dates and inputs, and depend on the date of the evaluation; the test build compiles none of these entities.",
 ["src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp", "src/tools/smooth-reach.cpp", "src/tools/motion-period.cpp", "src/tools/com-freezer.cpp", "src/tools/exp-moving-avg.cpp", "src/tools/gradient-ascent.cpp", "src/tools/binary-int-to-uint.cpp"],
 [("coeff_a, coeff_b, coeff_c", "parameters of the gain", "src/task/gain-adaptive.cpp"), ("start, goal, startTime, lengthTime, isStarted", "the reach in progress", "src/tools/smooth-reach.cpp"), ("motionParams", "periodic motions", "src/tools/motion-period.cpp"), ("m_lastCoM, m_previousPGInProcess, m_lastStopTime", "the frozen reference", "src/tools/com-freezer.cpp"), ("average, value", "accumulated value", "src/tools/exp-moving-avg.cpp")],
 [("computeGain, setByPoint", "src/task/gain-adaptive.cpp"), ("goalSOUT_function, smoothFunction", "src/tools/smooth-reach.cpp"), ("computeMotion", "src/tools/motion-period.cpp"), ("computeFreezedCoM", "src/tools/com-freezer.cpp")],
 ["signals gain, goal, motion, freezedCoM, average, value, binaryUint"],
 "Values are chosen where the laws are rational (powers of two, thirds and halves of the reach, quarters and sixths of a period); in between they are covered by the bounds only. A goal is set before the reach is evaluated.")
prop("C29", "Control laws and estimators follow their recursions exactly",
 "Proportional-derivative and gravity laws output their formula of the current inputs. The admittance law expresses the measured force in the world, integrates the error of force with damping, keeps every component within its saturation, gives the velocity in the frame of the operational point, restarts from zero on demand, and does nothing before a complete initialisation. The Kalman filter propagates its variance with the current model and noises and corrects the prediction with the matching gain, once per period; the attitude estimator integrates the gyroscope and corrects it by the accelerometer with the given gain and period, always returning a unit quaternion.",
 ["inputs", "histories"], "all inputs, gains, models, poses (on exact families), all sequences of settings, resets and evaluations",
 "Estimators accumulate the whole history of their inputs; the test build compiles none of these entities.",
 ["src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/control/admittance-control-op-point.cpp", "src/tools/kalman.cpp", "include/sot/core/kalman.hh", "src/filters/madgwickahrs.cpp"],
 [("m_w_dq, m_dt, m_initSucceeded", "state of the admittance", "src/control/admittance-control-op-point.cpp"), ("stateVariance_, K_", "variance and gain of the filter", "src/tools/kalman.cpp"), ("m_q0..m_q3, m_beta, m_sampleFreq", "estimated attitude", "src/filters/madgwickahrs.cpp")],
 [("computeControl", "src/control/control-pd.cpp"), ("w_dqSINNER_function, dqSOUT_function", "src/control/admittance-control-op-point.cpp"), ("computeVarianceUpdate, computeStateUpdate", "src/tools/kalman.cpp"), ("madgwickAHRSupdateIMU", "src/filters/madgwickahrs.cpp")],
 ["signals control, position_error, velocity_error", "signals w_force, w_dq, dq", "signals P, x_est", "signal imu_quat"],
 "Exact families: innovation covariances of determinant one or minus one, rational unit quaternions, poses of the cube group. The attitude for an exactly null correction reached through rounding is left out. Variance and state of the filter are given once, before use.")
