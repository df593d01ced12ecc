// Minimal, API-faithful stand-in for the few pinocchio operations used by
// sot-core (SE(3)/SO(3) Lie group operations and spatial vectors).
#ifndef PINSHIM_FWD
#define PINSHIM_FWD
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
namespace pinocchio {
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2 };
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
namespace shim {
inline Eigen::Matrix3d skew(const Eigen::Vector3d &v) { Eigen::Matrix3d m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
inline Eigen::Vector3d log3(const Eigen::Matrix3d &R) {
  Eigen::AngleAxisd a; a = Eigen::AngleAxisd(Eigen::Quaterniond(R));
  double t = a.angle(); if (t > M_PI) t -= 2 * M_PI; return t * a.axis(); }
inline Eigen::Matrix3d exp3(const Eigen::Vector3d &w) {
  double t = w.norm(); if (t < 1e-300) return Eigen::Matrix3d::Identity();
  return Eigen::AngleAxisd(t, w / t).toRotationMatrix(); }
template <class M> M Jr(const M &ad) { M r = M::Identity(), p = M::Identity(); double f = 1;
  for (int k = 1; k < 60; ++k) { p = -p * ad; f *= (k + 1); r += p / f; } return r; }
inline M6 ad(const V6 &x) { M6 m; m.setZero(); m.topLeftCorner<3, 3>() = skew(x.tail<3>()); m.bottomRightCorner<3, 3>() = skew(x.tail<3>()); m.topRightCorner<3, 3>() = skew(x.head<3>()); return m; }
inline V6 log6(const Eigen::Matrix3d &R, const Eigen::Vector3d &p) {
  V6 r; r.tail<3>() = log3(R); Eigen::Matrix3d W = skew(r.tail<3>()); Eigen::Matrix3d V = Jr<Eigen::Matrix3d>(-W); r.head<3>() = V.inverse() * p; return r; }
inline void exp6(const V6 &v, Eigen::Matrix3d &R, Eigen::Vector3d &p) { R = exp3(v.tail<3>()); p = Jr<Eigen::Matrix3d>(-skew(v.tail<3>())) * v.head<3>(); }
inline M6 action(const Eigen::Matrix3d &R, const Eigen::Vector3d &p) { M6 m; m.setZero(); m.topLeftCorner<3, 3>() = R; m.bottomRightCorner<3, 3>() = R; m.topRightCorner<3, 3>() = skew(p) * R; return m; }
}  // namespace shim
struct MotionTpl_ { V6 d; MotionTpl_() {} template <class D> explicit MotionTpl_(const Eigen::MatrixBase<D> &v) : d(v) {} const V6 &toVector() const { return d; }
  Eigen::Vector3d linear() const { return d.head<3>(); } Eigen::Vector3d angular() const { return d.tail<3>(); } };
struct ForceTpl_ { V6 d; ForceTpl_() {} template <class D> explicit ForceTpl_(const Eigen::MatrixBase<D> &v) : d(v) {} const V6 &toVector() const { return d; } };
typedef MotionTpl_ Motion; typedef ForceTpl_ Force;
struct SE3 {
  Eigen::Matrix3d R; Eigen::Vector3d p;
  template <class D> explicit SE3(const Eigen::MatrixBase<D> &m) : R(m.template block<3, 3>(0, 0)), p(m.template block<3, 1>(0, 3)) {}
  SE3(const Eigen::Matrix3d &R, const Eigen::Vector3d &p) : R(R), p(p) {}
  SE3 inverse() const { return SE3(R.transpose(), -R.transpose() * p); }
  M6 toActionMatrix() const { return shim::action(R, p); }
  Motion act(const Motion &m) const { return Motion(V6(shim::action(R, p) * m.d)); }
  Motion actInv(const Motion &m) const { return inverse().act(m); }
  Force act(const Force &f) const { V6 r; r.head<3>() = R * f.d.head<3>(); r.tail<3>() = R * f.d.tail<3>() + p.cross(Eigen::Vector3d(r.head<3>())); return Force(r); }
  Force actInv(const Force &f) const { return inverse().act(f); }
  Eigen::Matrix3d rotation() const { return R; } Eigen::Vector3d translation() const { return p; }
};
template <int D, class S, int O = 0> struct VectorSpaceOperationTpl { enum { NQ = D, NV = D };
  template <class A, class B, class C> void difference(const A &a, const B &b, C &&c) const { c = b - a; }
  template <ArgumentPosition arg, class A, class B, class J> void dDifference(const A &, const B &, J &&j) const { j.setIdentity(); if (arg == ARG0) j *= -1; }
  template <class A, class B, class C> void integrate(const A &a, const B &b, C &&c) const { c = a + b; } };
template <int D, class S, int O = 0> struct SpecialOrthogonalOperationTpl { enum { NQ = 4, NV = 3 };
  static Eigen::Matrix3d R(const Eigen::Vector4d &q) { return Eigen::Quaterniond(q(3), q(0), q(1), q(2)).toRotationMatrix(); }
  template <class A, class B, class C> void difference(const A &a, const B &b, C &&c) const { c = shim::log3(R(a).transpose() * R(b)); }
  template <ArgumentPosition arg, class A, class B, class J> void dDifference(const A &a, const B &b, J &&j) const {
    Eigen::Matrix3d M = R(a).transpose() * R(b); Eigen::Matrix3d L = shim::Jr<Eigen::Matrix3d>(shim::skew(shim::log3(M))).inverse();
    if (arg == ARG1) j = L; else j = -L * M.transpose(); }
  template <class A, class B, class C> void integrate(const A &a, const B &b, C &&c) const { Eigen::Matrix3d M = R(a) * shim::exp3(b); Eigen::Quaterniond q(M); c = q.coeffs(); } };
template <int D, class S, int O = 0> struct SpecialEuclideanOperationTpl { enum { NQ = 7, NV = 6 };
  static void rel(const Eigen::Matrix<double, 7, 1> &a, const Eigen::Matrix<double, 7, 1> &b, Eigen::Matrix3d &R, Eigen::Vector3d &p) {
    typedef SpecialOrthogonalOperationTpl<3, double> SO; Eigen::Matrix3d Ra = SO::R(a.tail<4>()); R = Ra.transpose() * SO::R(b.tail<4>()); p = Ra.transpose() * (b.head<3>() - a.head<3>()); }
  template <class A, class B, class C> void difference(const A &a, const B &b, C &&c) const { Eigen::Matrix3d R; Eigen::Vector3d p; rel(a, b, R, p); c = shim::log6(R, p); }
  template <ArgumentPosition arg, class A, class B, class J> void dDifference(const A &a, const B &b, J &&j) const {
    Eigen::Matrix3d R; Eigen::Vector3d p; rel(a, b, R, p); M6 L = shim::Jr<M6>(shim::ad(shim::log6(R, p))).inverse();
    if (arg == ARG1) j = L; else j = -L * shim::action(R.transpose(), -R.transpose() * p); }
  template <class A, class B, class C> void integrate(const A &a, const B &b, C &&c) const {
    Eigen::Matrix<double, 7, 1> q = a; V6 v = b; Eigen::Matrix3d Re; Eigen::Vector3d pe; shim::exp6(v, Re, pe);
    Eigen::Matrix3d Ra = SpecialOrthogonalOperationTpl<3, double>::R(q.template tail<4>());
    Eigen::Quaterniond qq(Eigen::Matrix3d(Ra * Re)); if (qq.coeffs().dot(q.template tail<4>()) < 0) qq.coeffs() *= -1; qq.normalize();
    Eigen::Matrix<double, 7, 1> r; r.template head<3>() = q.template head<3>() + Ra * pe; r.template tail<4>() = qq.coeffs(); const_cast<typename std::remove_const<typename std::remove_reference<C>::type>::type &>(c) = r; } };
template <class L1, class L2> struct CartesianProductOperation { enum { NQ = L1::NQ + L2::NQ, NV = L1::NV + L2::NV };
  template <class A, class B, class C> void difference(const A &a, const B &b, C &&c) const {
    Eigen::Matrix<double, L1::NV, 1> r1; Eigen::Matrix<double, L2::NV, 1> r2;
    Eigen::Matrix<double, NQ, 1> x = a, y = b;
    L1().difference(x.template head<L1::NQ>(), y.template head<L1::NQ>(), r1); L2().difference(x.template tail<L2::NQ>(), y.template tail<L2::NQ>(), r2);
    c << r1, r2; }
  template <ArgumentPosition arg, class A, class B, class J> void dDifference(const A &a, const B &b, J &&j) const {
    Eigen::Matrix<double, L1::NV, L1::NV> j1; Eigen::Matrix<double, L2::NV, L2::NV> j2; Eigen::Matrix<double, NQ, 1> x = a, y = b;
    L1().template dDifference<arg>(x.template head<L1::NQ>(), y.template head<L1::NQ>(), j1); L2().template dDifference<arg>(x.template tail<L2::NQ>(), y.template tail<L2::NQ>(), j2);
    j.setZero(); j.template topLeftCorner<L1::NV, L1::NV>() = j1; j.template bottomRightCorner<L2::NV, L2::NV>() = j2; }
  template <class A, class B, class C> void integrate(const A &a, const B &b, C &&c) const {
    Eigen::Matrix<double, NQ, 1> x = a; Eigen::Matrix<double, NV, 1> v = b; Eigen::Matrix<double, L1::NQ, 1> c1; Eigen::Matrix<double, L2::NQ, 1> c2;
    L1().integrate(x.template head<L1::NQ>(), v.template head<L1::NV>(), c1); L2().integrate(x.template tail<L2::NQ>(), v.template tail<L2::NV>(), c2);
    const_cast<typename std::remove_const<typename std::remove_reference<C>::type>::type &>(c) << c1, c2; } };
}  // namespace pinocchio
#endif
