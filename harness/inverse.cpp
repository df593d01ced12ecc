// inverses of matrices
#include "h.hh"
#include <sot/core/matrix-svd.hh>
using namespace vh; typedef dynamicgraph::Matrix M; typedef dynamicgraph::Vector Vc;
static M mat(const J &j, double s) { M m(j.size(), j[0].size()); for (size_t i = 0; i < j.size(); ++i) for (size_t k = 0; k < j[0].size(); ++k) m(i, k) = j[i][k].n / s; return m; }
static void op(const J &a, O &o) {
  M U = mat(a[1], 5), V = mat(a[3], 5), S = M::Zero(U.rows(), V.rows()), X(2, 5), Ur; Vc Sr; M Vr; X.setConstant(9); for (size_t i = 0; i < a[2].size(); ++i) S(i, i) = a[2][i].n;
  M A = U * S * V.transpose(); std::string c = a[0].s; double k = a[4].n, d = k == 0 ? 60 : k == 1 ? 10 : k == 2 ? 20 : 30; M A0 = A; o.s("ok");
  if (c == "pinv") { if (k == 0) dynamicgraph::pseudoInverse(A, X); else dynamicgraph::pseudoInverse(A, X, k / 2); o.m(X, 25 * 60, 1e-4); }
  else if (c == "damp") { if (k == 0) dynamicgraph::dampedInverse(A, X); else dynamicgraph::dampedInverse(A, X, k); o.m(X, 25 * d, 1e-4); }
  else if (c == "full") { dynamicgraph::SVD_t svd(A, Eigen::ComputeFullU | Eigen::ComputeFullV); if (k == 0) dynamicgraph::dampedInverse(svd, X); else dynamicgraph::dampedInverse(svd, X, k); o.m(X, 25 * d, 1e-4); }
  else { if (k == 0) dynamicgraph::dampedInverse(A, X, Ur, Sr, Vr); else dynamicgraph::dampedInverse(A, X, Ur, Sr, Vr, k); o.m(X, 25 * d, 1e-4).v(Sr); o.m(M(Ur * Sr.asDiagonal() * Vr.transpose()), 25, 1e-5); }
  if (A != A0) o.s("input changed"); }
int main() { return run([] {}, op); }
