// operator entities, constants, change of operational point
#include "ent.hh"
#include "matrix/operator.hh"
#include <new>
#include <cstring>
#include <sot/core/matrix-geometry.hh>
#include <sot/core/op-point-modifier.hh>
#include <sot/core/matrix-constant.hh>
#include <sot/core/vector-constant.hh>
#include <sot/core/double-constant.hh>
using namespace vh; namespace S = dynamicgraph::sot;
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x5A, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
static const double D = 125;
typedef S::MatrixHomogeneous H; typedef S::MatrixRotation R; typedef S::MatrixTwist T; typedef S::VectorQuaternion Q; typedef S::VectorUTheta U; typedef S::VectorRollPitchYaw Y;
static dg::Entity *e; static std::string cls; static int t; static std::vector<std::function<void()>> feed; static bool variadic;
// operators of numbers, vectors and matrices: they say the same in any unit
static const std::string UNIT = "Selec_of_vector Component_of_vector MatrixDiagonal Norm_of_vector Substract_of_vector Stack_of_vector CompareVector WeightAdd_of_vector Mix_of_vector Add_of_vector Multiply_of_vector Selec_of_matrix Selec_column_of_matrix MatrixTranspose Inverse_of_matrix Substract_of_matrix WeightAdd_of_matrix Add_of_matrix Multiply_of_matrix Substract_of_double CompareDouble WeightAdd_of_double Add_of_double Multiply_of_double SkewSymToVector Multiply_double_vector Multiply_matrix_vector ConvolutionTemporal VectorConstant MatrixConstant DoubleConstant";
static int chosen;
static void fresh(const std::string &c) { unit((" " + UNIT + " ").find(" " + c + " ") != std::string::npos ? chosen : 0); wipe(); t = 0; feed.clear(); cls = c; variadic = false; e = nullptr; }
static void reset() { chosen = 0; fresh(""); }
static double u_() { return units()[0]; }     // the unit of numbers, vectors and matrices, and that of the result
static Vec uvec(const J &a) { return vec(a) * u_(); }
static Mat umat(const J &a) { return mat(a) * u_(); }
static bool has(const std::string &l) { return (" " + l + " ").find(" " + cls + " ") != std::string::npos; }
// --- values
static R rot(const J &a) { return R(mat(a, D)); }
static H homo(const J &a) { H h; h.setIdentity(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) h.matrix()(i, j) = a[i][j].n / D; h.matrix()(i, 3) = a[i][3].n; } return h; }
static Q quat(const J &a, size_t at = 0) { return Q(a[at].n / 2, a[at + 1].n / 2, a[at + 2].n / 2, a[at + 3].n / 2); }
static Y rpy(const J &a) { return Y(std::atan2(a[0][1].n, a[0][0].n), std::atan2(a[1][1].n, a[1][0].n), std::atan2(a[2][1].n, a[2][0].n)); }
static U utheta(const J &a, size_t at = 0) { Eigen::Vector3d x(a[at].n, a[at + 1].n, a[at + 2].n); return U(2 * M_PI * a[at + 3].n / a[at + 4].n, x.normalized()); }
static Eigen::Matrix3d Rx(double a) { Eigen::Matrix3d m; m << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return m; }
static Eigen::Matrix3d Ry(double a) { Eigen::Matrix3d m; m << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return m; }
static Eigen::Matrix3d Rz(double a) { Eigen::Matrix3d m; m << cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1; return m; }
static Eigen::Matrix3d ofRpy(const Eigen::Vector3d &r) { return Rz(r(2)) * Ry(r(1)) * Rx(r(0)); }
static Eigen::Matrix3d ofUt(const Eigen::Vector3d &u) {           // Rodrigues
  double th = u.norm(); Eigen::Matrix3d k; if (th < 1e-12) return Eigen::Matrix3d::Identity(); Eigen::Vector3d a = u / th; k << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0; return Eigen::Matrix3d::Identity() + sin(th) * k + (1 - cos(th)) * k * k; }
static Eigen::Matrix3d ofQ(double w, double x, double y, double z) { Eigen::Matrix3d m; m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  if (std::fabs(w * w + x * x + y * y + z * z - 1) > 1e-9) m.setConstant(std::nan("")); return m; }
static std::string ms(const Mat &m, double sc) { return O::ms(m, sc); }
static std::string pose(const Eigen::Matrix3d &r, const Eigen::Vector3d &p) { Mat m(3, 4); m << r, p; return ms(m, D); }
template <class X> static const X &out() { const X &v = sig<X>(*e, "sout")(t); return v; }
template <class X> static void give(dg::Entity &en, const std::string &n, const X &v) { put<X>(en, n, v, t % 3 == 1); }
// --- entities with any number of inputs
struct Any { virtual ~Any() {} virtual int count() = 0; virtual void number(int) = 0; virtual int add(const std::string &) = 0; virtual int add() = 0; virtual void remove() = 0; virtual std::string name(int) = 0; };
template <class X> struct AnyOf : Any { S::VariadicAbstract<X, X, int> *v; AnyOf(S::VariadicAbstract<X, X, int> *p) : v(p) {}
  int count() { return v->getSignalNumber(); } void number(int n) { v->setSignalNumber(n); } int add(const std::string &n) { return (int)v->addSignal(n); } int add() { return (int)v->addSignal(); } void remove() { v->removeSignal(); }
  std::string name(int i) { dg::SignalPtr<X, int> *s = v->getSignalIn(i); std::string n = s->shortName(); if (&v->getSignal(n) != s) n += "?"; return n; } };
static std::unique_ptr<Any> any;
template <class X> static bool take() { S::VariadicAbstract<X, X, int> *v = dynamic_cast<S::VariadicAbstract<X, X, int> *>(e); if (v) any.reset(new AnyOf<X>(v)); return v; }
template <class X> static bool coeffs(const Vec &c) { S::VariadicOp<S::AdderVariadic<X>> *v = dynamic_cast<S::VariadicOp<S::AdderVariadic<X>> *>(e); if (v) v->op.setCoeffs(c); return v; }
// --- inputs
static void input(const std::string &n, size_t i, const J &a) {
#define TAKE(type, expr) { const type val_ = (expr); feed[i] = [n, val_] { give<type>(*e, n, val_); }; feed[i](); return; }
  if (has("Selec_of_vector Component_of_vector MatrixDiagonal Norm_of_vector Substract_of_vector Stack_of_vector CompareVector WeightAdd_of_vector Mix_of_vector Add_of_vector Multiply_of_vector")) TAKE(Vec, Vec(uvec(a) * (cls == "CompareVector" && u_() < 0 ? -1 : 1)))
  if (has("Selec_of_matrix Selec_column_of_matrix MatrixTranspose Inverse_of_matrix Substract_of_matrix WeightAdd_of_matrix Add_of_matrix Multiply_of_matrix")) TAKE(Mat, umat(a))
  if (has("Inverse_of_matrixtwist")) TAKE(T, T(mat(a, D)))
  if (has("Multiply_of_matrixtwist") || (cls == "Multiply_matrixTwist_vector" && i == 0)) TAKE(T, T(mat(a)))
  if (has("Inverse_of_matrixrotation MatrixToRPY MatrixToQuaternion MatrixToUTheta Multiply_of_matrixrotation")) TAKE(R, rot(a))
  if (has("Inverse_of_unitquat QuaternionToRPY QuaternionToMatrix Multiply_of_quaternion")) TAKE(Q, quat(a))
  if (has("RPYToMatrix RPYToQuaternion")) TAKE(Y, rpy(a))
  if (has("UThetaToQuaternion")) TAKE(U, utheta(a))
  if (has("And Or")) TAKE(bool, a.b())
  if (has("Substract_of_double CompareDouble WeightAdd_of_double Add_of_double Multiply_of_double")) TAKE(double, a.n * (cls == "CompareDouble" ? std::fabs(u_()) : u_()))
  if (has("SkewSymToVector")) { Mat m(3, 3); const double q = u_(); m << 0, -a[2].n, a[1].n, a[2].n, 0, -a[0].n, -a[1].n, a[0].n, 0; m *= q; TAKE(Mat, m) }
  if (has("PoseUThetaToMatrixHomo")) { Vec v(6); U u = utheta(a, 3); v << a[0].n, a[1].n, a[2].n, u.angle() * u.axis(); TAKE(Vec, v) }
  if (has("PoseQuaternionToMatrixHomo")) { Vec v(7); Q q = quat(a, 3); v << a[0].n, a[1].n, a[2].n, q.x(), q.y(), q.z(), q.w(); TAKE(Vec, v) }
  if (has("PoseRollPitchYawToMatrixHomo PoseRollPitchYawToPoseUTheta")) { Vec v(6); v << vec(a[0]), rpy(a[1]); TAKE(Vec, v) }
  if (has("SE3VectorToMatrixHomo")) { H h = homo(a); Vec v(12); v << h.translation(), h.matrix()(0, 0), h.matrix()(0, 1), h.matrix()(0, 2), h.matrix()(1, 0), h.matrix()(1, 1), h.matrix()(1, 2), h.matrix()(2, 0), h.matrix()(2, 1), h.matrix()(2, 2); TAKE(Vec, v) }
  if (has("MatrixToHomo")) TAKE(Mat, Mat(homo(a).matrix()))
  if (cls == "Multiply_double_vector") { if (i == 0) TAKE(double, a.n * u_()) else TAKE(Vec, uvec(a)) }
  if (cls == "Multiply_matrix_vector") { if (i == 0) TAKE(Mat, umat(a)) else TAKE(Vec, uvec(a)) }
  if (cls == "Multiply_matrixTwist_vector") TAKE(Vec, vec(a))
  if (cls == "Multiply_matrixHomo_vector") { if (i == 0) TAKE(H, homo(a)) else TAKE(Vec, vec(a)) }
  if (cls == "Compose_R_and_T") { if (i == 0) TAKE(Mat, mat(a, D)) else TAKE(Vec, vec(a)) }
  if (cls == "ConvolutionTemporal") { if (i == 0) TAKE(Vec, uvec(a)) else TAKE(Mat, umat(a)) }
  if (cls == "point" && i == 0) TAKE(Mat, mat(a))
  TAKE(H, homo(a))
}
// --- the output, and then again in the same period
static std::string value() {
  const double un = std::pow(cls == "Norm_of_vector" ? std::fabs(u_()) : u_(), cls == "Inverse_of_matrix" ? 1. : has("Multiply_double_vector Multiply_matrix_vector ConvolutionTemporal") ? -2. : cls == "Multiply_matrixTwist_vector" ? 0. : has("Multiply_of_double Multiply_of_vector Multiply_of_matrix") ? -(double)feed.size() : -1.);
  if (has("Component_of_vector Norm_of_vector Substract_of_double WeightAdd_of_double Add_of_double Multiply_of_double")) return O::rs(out<double>(), un);
  if (has("CompareDouble CompareVector And Or")) return out<bool>() ? "true" : "false";
  if (has("Selec_of_vector Selec_column_of_matrix SkewSymToVector Multiply_double_vector Multiply_matrix_vector Multiply_matrixTwist_vector Substract_of_vector Stack_of_vector ConvolutionTemporal WeightAdd_of_vector Mix_of_vector Add_of_vector Multiply_of_vector")) return O::vs(out<Vec>(), un);
  if (has("Selec_of_matrix MatrixTranspose MatrixDiagonal Inverse_of_matrix Substract_of_matrix WeightAdd_of_matrix Add_of_matrix Multiply_of_matrix")) return ms(out<Mat>(), un);
  if (has("Multiply_matrixHomo_vector MatrixHomoToPose")) return O::vs(out<Vec>(), D);
  if (has("Inverse_of_matrixtwist")) return ms(out<T>(), D * D * D);
  if (has("HomoToTwist")) return ms(out<T>(), D);
  if (has("Multiply_of_matrixtwist")) return ms(out<T>(), 1);
  if (has("Inverse_of_matrixrotation HomoToRotation RPYToMatrix QuaternionToMatrix")) return ms(out<R>(), D);
  if (has("Multiply_of_matrixrotation")) return ms(out<R>(), std::pow(D, feed.size()));
  if (has("Inverse_of_unitquat Multiply_of_quaternion")) { Q q = out<Q>(); Vec v(4); v << q.w(), q.x(), q.y(), q.z(); return O::vs(v, std::pow(2, feed.size())); }
  if (has("MatrixHomoToPoseUTheta PoseRollPitchYawToPoseUTheta")) { Vec v = out<Vec>(); return v.size() == 6 ? pose(ofUt(v.tail<3>()), v.head<3>()) : "\"size\""; }
  if (has("MatrixHomoToPoseRollPitchYaw")) { Vec v = out<Vec>(); return v.size() == 6 ? pose(ofRpy(v.tail<3>()), v.head<3>()) : "\"size\""; }
  if (has("MatrixHomoToPoseQuaternion")) { Vec v = out<Vec>(); return v.size() == 7 ? pose(ofQ(v(6), v(3), v(4), v(5)), v.head<3>()) : "\"size\""; }
  if (has("MatrixHomoToSE3Vector")) { Vec v = out<Vec>(); Eigen::Matrix3d m; if (v.size() != 12) return "\"size\""; m << v(3), v(4), v(5), v(6), v(7), v(8), v(9), v(10), v(11); return pose(m, v.head<3>()); }
  if (has("HomoToMatrix")) { Mat m = out<Mat>(); if (m.rows() != 4 || m.cols() != 4 || m(3, 0) || m(3, 1) || m(3, 2) || m(3, 3) != 1) return "\"not homogeneous\""; return ms(m.topRows(3), D); }
  if (has("MatrixToRPY QuaternionToRPY")) { Y y = out<Y>(); return ms(ofRpy(y), D); }
  if (has("RPYToQuaternion MatrixToQuaternion UThetaToQuaternion")) { Q q = out<Q>(); return ms(ofQ(q.w(), q.x(), q.y(), q.z()), D); }
  if (has("MatrixToUTheta")) { U u = out<U>(); if (std::fabs(u.axis().norm() - 1) > 1e-9) return "\"axis\""; return ms(ofUt(u.angle() * u.axis()), D); }
  H h = out<H>(); Mat m = h.matrix(); if (m(3, 0) || m(3, 1) || m(3, 2) || m(3, 3) != 1) return "\"not homogeneous\"";
  return ms(m.topRows(3), has("Multiply_of_matrixHomo") ? std::pow(D, feed.size()) : D);
}
static bool stale = true;  // anything but an input may have changed
static void all() { ++t; if (!stale && cls != "ConvolutionTemporal") return; stale = false; for (size_t i = cls == "point" && feed[1]; i < feed.size(); ++i) if (feed[i]) feed[i](); /* (a Jacobian may stay the same while the position moves) */ }
static void seen() { if (odd(t)) poll(*e, t); }
static void op(const J &a, O &o) {
  std::string c = a[0].s;
  if (c != "in" && c != "eval" && c != "jacobian" && c != "position" && c != "gettr" && c != "names" && c != "transformation" && c != "effector") stale = true;
  if (c == "unit") { chosen = a[1].i(); o.s("ok"); }
  else if (c == "new") {
    fresh(a[1].s); any.reset(); e = dg::FactoryStorage::getInstance()->newEntity(cls, "e"); variadic = take<double>() || take<Vec>() || take<Mat>() || take<R>() || take<H>() || take<T>() || take<Q>() || take<bool>();
    feed.resize(variadic ? any->count() : e->getSignalMap().size() - 1); o.s("ok"); if (e->getClassName() != cls) o.s("class"); }
  else if (c == "in") { size_t i = a[1].i() - 1; std::string n = cls == "point" ? (i ? "positionIN" : "jacobianIN") : variadic ? any->name(i) : feed.size() == 1 ? "sin" : i ? "sin2" : "sin1"; input(n, i, a[2]); o.s("ok"); }
  else if (c == "cmd") { std::vector<Val> v; for (size_t i = 0; i < a[2].size(); ++i) v.push_back(a[1].s.find("Gain") != std::string::npos ? Val(a[2][i].n) : Val(a[2][i].i())); if (cls == "Mix_of_vector") v.pop_back(), v.push_back(Val(a[2][2].i())); Val r = call(*e, a[1].s, v); o.s("ok"); if (a[1].s.substr(0, 3) == "get") { double d = r.value(); o.r(d); } }
  else if (c == "mode") { call(*e, "setTrueIfAny", {Val(a[1].b())}); call(*e, "setEqual", {Val(a[2].b())}); o.s("ok"); }
  else if (c == "getmode") { bool x = call(*e, "getTrueIfAny").value(), y = call(*e, "getEqual").value(); o.s("ok").b(x).b(y); }
  else if (c == "eval") { all(); seen(); std::string r = value(), r2 = value(); o.s("ok").raw(r); if (r2 != r) o.s("differs in the same period"); }
  else if (c == "number") { size_t n = a[1].i(); if (n < feed.size()) feed.resize(n); try { any->number(n); } catch (...) { feed.resize(any->count()); throw; } feed.resize(n); o.s("ok"); }
  else if (c == "add") { int n = any->add(a[1].s); feed.resize(any->count()); o.s("ok").i(n); }
  else if (c == "addn") { int n = any->add(); feed.resize(any->count()); o.s("ok").i(n); }
  else if (c == "remove") { if (feed.empty()) { o.s("none"); return; } feed.pop_back(); any->remove(); o.s("ok"); }
  else if (c == "names") { std::vector<std::string> v; for (int i = 0; i < any->count(); ++i) v.push_back(any->name(i)); o.s("ok").ss(v); if (e->getSignalMap().size() != v.size() + 1) o.s("other signals"); }
  else if (c == "coeffs") { Vec k = vec(a[1]); if (!coeffs<double>(k) && !coeffs<Vec>(k) && !coeffs<Mat>(k)) o.s("no coefficients"); else o.s("ok"); }
  else if (c == "constant") { fresh(a[1].s); e = dg::FactoryStorage::getInstance()->newEntity(cls, "e"); o.s("ok"); }
  else if (c == "set") { call(*e, "set", {cls == "VectorConstant" ? Val(uvec(a[1])) : cls == "MatrixConstant" ? Val(umat(a[1])) : Val(a[1].n * u_())}); o.s("ok"); }
  else if (c == "zero") { std::vector<Val> v; for (size_t i = 0; i < a[1].size(); ++i) v.push_back(Val((unsigned)a[1][i].i())); call(*e, "resize", v); o.s("ok"); }
  else if (c == "value") { ++t; o.s("ok"); if (cls == "VectorConstant") o.v(out<Vec>(), 1 / u_()); else if (cls == "MatrixConstant") o.m(out<Mat>(), 1 / u_()); else o.r(out<double>(), 1 / u_()); }
  else if (c == "point") { fresh("point"); e = new S::OpPointModifier("e"); feed.resize(2); o.s("ok"); }
  else if (c == "transformation") { Eigen::Matrix4d m = homo(a[1]).matrix(); call(*e, "setTransformation", {Val(m)}); o.s("ok"); }
  else if (c == "effector") { call(*e, "setEndEffector", {Val(a[1].b())}); o.s("ok"); }
  else if (c == "gettr") { Eigen::Matrix4d m = call(*e, "getTransformation").value(); bool b = call(*e, "getEndEffector").value(); o.s("ok").raw(ms(m.topRows(3), D)).b(b); if (m(3, 0) || m(3, 1) || m(3, 2) || m(3, 3) != 1) o.s("not homogeneous"); }
  else if (c == "jacobian") { all(); seen(); o.s("ok").m(sig<Mat>(*e, "jacobian")(t), D * D); }
  else if (c == "position") { all(); seen(); o.s("ok").m(Mat(sig<H>(*e, "position")(t).matrix().topRows(3)), D * D); }
  else o.s("unknown");
}
int main() { classifier() = [](O &o) { bool r = excname(o); ++t; stale = true; if (e) for (const char *n : {"sout", "jacobian", "position"}) if (e->hasSignal(n)) e->getSignal(n).setReady(); return r; }; return run(reset, op); }
