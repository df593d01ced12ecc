from meta import prop
prop("C30", "Frame, line and point features give exact errors and Jacobians",
 "Features that place a frame give the pose error in the frame asked for, its velocity and its Jacobian of the current inputs, for every pose, reference, selection and representation, whatever was evaluated before. Keeping the current position makes the error null, and a reference added, changed or removed is taken into account from the next evaluation on. The distance of two lines, its complete derivative, and the projection of a point seen from a moving frame follow their definitions.",
 ["inputs", "histories"], "all pairs of poses of the cube group (half turns excepted), all Jacobians, velocities, selections, references and frames, all sequences of changes and evaluations",
 "Errors are compared with formulae for all orientations and after every sequence of changes, not for a single pose; the test build compiles none of these features.",
 ["src/feature/feature-point6d.cpp", "src/feature/feature-point6d-relative.cpp", "include/sot/core/feature-pose.hxx", "src/feature/feature-line-distance.cpp", "src/tools/../feature/visual-point-projecter.cpp".replace("tools/../", "")],
 [("computationFrame_, reference, selection", "what the error means", "src/feature/feature-point6d.cpp"), ("faMfbDes", "desired pose kept on demand", "include/sot/core/feature-pose.hxx")],
 [("computeError, computeErrordot, computeJacobian, servoCurrentPosition", "src/feature/feature-point6d.cpp"), ("computeError, initSdes", "src/feature/feature-point6d-relative.cpp"), ("computeJacobian, computeErrorDot", "include/sot/core/feature-pose.hxx"), ("computeJacobian", "src/feature/feature-line-distance.cpp"), ("point3DgazeSOUT_function", "src/feature/visual-point-projecter.cpp")],
 ["signals error, errordot, jacobian, dim, faMfb, line, point2D, depth", "commands frame, keep, initSdes"],
 "Exact families: rotations of the cube group (identity, quarter and third turns), whose rotation vectors are multiples of two constants. The velocity of the error of a relative frame is left out, as are SE3 Jacobians away from null relative rotation.")
