from meta import prop
prop("C33", "Inverses of matrices are the pseudo-inverse and the damped inverse",
 "For a matrix of any shape and rank, the pseudo-inverse inverts every singular value above the threshold and cuts the others, and the damped inverse replaces each value s by s/(s^2+d^2), so that nothing is amplified by more than 1/(2d). All ways of asking give the same inverse, the factors returned with it multiply back to the matrix with its singular values in decreasing order, and the matrix given is left as it was.",
 ["inputs"], "all matrices with declared singular values, all shapes, ranks and thresholds",
 "Rank-deficient and flat matrices are where an inverse goes wrong, and no test computes one.",
 ["src/matrix/matrix-svd.cpp", "include/sot/core/matrix-svd.hh"],
 [("singular values", "values kept, cut or damped", "src/matrix/matrix-svd.cpp")],
 [("pseudoInverse, dampedInverse", "src/matrix/matrix-svd.cpp")],
 ["matrices returned"],
 "Singular values are chosen away from the threshold; a singular value that is zero up to rounding is not damped by the default damping, which is smaller than its effect.")
