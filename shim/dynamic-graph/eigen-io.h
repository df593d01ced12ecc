#ifndef DGSHIM_EIGEN_IO_H
#define DGSHIM_EIGEN_IO_H
#include <dynamic-graph/linear-algebra.h>
#include <dynamic-graph/exception-abstract.h>
#include <istream>
namespace Eigen {
template <typename D> inline typename std::enable_if<D::ColsAtCompileTime == 1, std::istream &>::type operator>>(std::istream &is, PlainObjectBase<D> &v) {
  char c; unsigned n = 0; bool ok = true;
  ok = ok && (is >> c) && c == '['; ok = ok && (is >> n); ok = ok && (is >> c) && c == ']'; ok = ok && (is >> c) && c == '(';
  if (ok) { v.resize(n); for (unsigned i = 0; ok && i < n; ++i) { ok = ok && bool(is >> v.coeffRef(i)); if (i + 1 < n) ok = ok && (is >> c) && c == ','; } ok = ok && (is >> c) && c == ')'; }
  if (!ok) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "failed to enter ([N](val1,val2,...)) as vector");
  return is;
}
template <typename D> inline typename std::enable_if<D::ColsAtCompileTime != 1, std::istream &>::type operator>>(std::istream &is, PlainObjectBase<D> &m) {
  char c; unsigned r = 0, k = 0; bool ok = true;
  ok = ok && (is >> c) && c == '['; ok = ok && (is >> r); ok = ok && (is >> c) && c == ','; ok = ok && (is >> k); ok = ok && (is >> c) && c == ']'; ok = ok && (is >> c) && c == '(';
  if (ok) { m.resize(r, k);
    for (unsigned i = 0; ok && i < r; ++i) { ok = ok && (is >> c) && c == '(';
      for (unsigned j = 0; ok && j < k; ++j) { ok = ok && bool(is >> m.coeffRef(i, j)); if (j + 1 < k) ok = ok && (is >> c) && c == ','; }
      ok = ok && (is >> c) && c == ')'; if (i + 1 < r) ok = ok && (is >> c) && c == ','; }
    ok = ok && (is >> c) && c == ')'; }
  if (!ok) throw dynamicgraph::ExceptionSignal(dynamicgraph::ExceptionSignal::GENERIC, "failed to enter ([r,c]((..),..)) as matrix");
  return is;
}
inline std::istream &operator>>(std::istream &is, Transform<double, 3, Affine> &t) { MatrixXd m; is >> m; t.matrix() = m; return is; }
inline std::ostream &operator<<(std::ostream &os, const Transform<double, 3, Affine> &t) { return os << t.matrix(); }
inline std::istream &operator>>(std::istream &is, Quaterniond &q) { VectorXd v; is >> v; q.coeffs() = v.head<4>(); return is; }
inline std::istream &operator>>(std::istream &is, AngleAxisd &) { return is; }
inline std::ostream &operator<<(std::ostream &os, const AngleAxisd &q) { return os << q.angle() << " " << q.axis().transpose(); }
}  // namespace Eigen
#endif
