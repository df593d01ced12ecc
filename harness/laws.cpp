// gains, references in time, limits, control laws and estimators
#include "ent.hh"
#include <new>
#include <cstring>
#include <map>
#include <sot/core/matrix-geometry.hh>
#include <sot/core/flags.hh>
#include <sot/core/gain-adaptive.hh>
#include <sot/core/gain-hyperbolic.hh>
#include <sot/core/smooth-reach.hh>
#include <sot/core/motion-period.hh>
#include <sot/core/com-freezer.hh>
#include <sot/core/exp-moving-avg.hh>
#include <sot/core/gradient-ascent.hh>
#include <sot/core/binary-int-to-uint.hh>
#include <sot/core/joint-limitator.hh>
#include <sot/core/neck-limitation.hh>
#include <sot/core/gripper-control.hh>
#include <sot/core/clamp-workspace.hh>
#include <sot/core/control-pd.hh>
#include <sot/core/control-gr.hh>
#include <sot/core/admittance-control-op-point.hh>
#include <sot/core/kalman.hh>
#include <sot/core/madgwickahrs.hh>
using namespace vh; namespace S = dynamicgraph::sot;
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x5A, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
typedef S::MatrixHomogeneous H;
static dg::Entity *e; static int t, t0; static std::map<std::string, std::function<void()>> feed; static double dt; static Vec u0;
static void fresh() { wipe(); e = nullptr; t = 0; feed.clear(); dt = 0; }
static void reset() { unit(); fresh(); }
static double U() { return units()[0]; }      // the unit of the quantity that goes through the entity
static double Up() { return std::fabs(U()); } // where an order matters
static Vec uvec(const J &a) { return vec(a) * U(); }
template <class X> static X *as() { X *x = dynamic_cast<X *>(e); if (!x) throw std::runtime_error("harness: kind"); return x; }
template <class X> static void give(const std::string &n, const X &v) { put<X>(*e, n, v, t % 3 == 1); }
template <class X> static void in(const std::string &n, const X &v) { feed[n] = [n, v] { give<X>(n, v); }; feed[n](); }
template <class X> static void change(const std::string &n, const X &v) { static std::map<std::string, X> was; static dg::Entity *of = nullptr; if (of != e || !feed.count(n)) was.erase(n); of = e;
  auto w = was.find(n); if (w != was.end() && w->second.rows() == v.rows() && w->second == v) return; was[n] = v; in<X>(n, v); }  // only what changes is set
static void seen() { if (odd(t)) poll(*e, t); }
static void next(int d = 1) { t += d; for (auto &f : feed) f.second(); }
static H homo(const J &a) { H h; h.setIdentity(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) h.matrix()(i, j) = a[i][j].n; return h; }
struct Neck : S::NeckLimitation { Neck(const J &a) : S::NeckLimitation("e") { panRank = a[1].i() - 1; tiltRank = a[2].i() - 1; signTilt = a[3].i(); } };
struct Period : S::MotionPeriod { Period() : S::MotionPeriod("e") {} void size(int n) { resize(n); }
  void put(int i, const J &m) { sotMotionParam &p = motionParams[i]; p.motionType = m[0].s == "sin" ? MOTION_SIN : m[0].s == "cos" ? MOTION_COS : MOTION_CONSTANT; p.period = m[1].i(); p.initPeriod = m[2].i(); p.amplitude = m[3].n * units()[0]; p.initAmplitude = m[4].n * units()[0]; } };
static const double L2 = std::log(2.);
// a rational unit quaternion, as norm and primitive vector
static void quat(const Vec &q, O &o) {
  if (q.size() == 0) return;
  for (int d = 1; d < 4000; ++d) { bool ok = true; for (int i = 0; i < 4 && ok; ++i) { double x = q(i) * d; ok = std::fabs(x - std::round(x)) < 1e-8 * d; } if (ok) { o.i(d); for (int i = 0; i < 4; ++i) o.i(std::lround(q(i) * d)); return; } }
  o.v(q); }
static bool gains(const std::string &c, const J &a, O &o) {
  if (c == "adaptive" || c == "hyperbolic") { fresh(); const J &p = a[1]; size_t n = p.size(); double v0 = n ? p[0].n / 10 : 0, vi = n > 1 ? p[1].n / 10 : 0;
    if (c == "adaptive") e = n == 0 ? new S::GainAdaptive("e") : n == 1 ? new S::GainAdaptive("e", v0) : new S::GainAdaptive("e", v0, vi, (v0 - vi) * L2 * p[2].n);
    else e = n == 0 ? new S::GainHyperbolic("e") : n == 1 ? new S::GainHyperbolic("e", v0) : new S::GainHyperbolic("e", v0, vi, (v0 - vi) * L2 * p[2].n, p[3].n);
    o.s("ok"); return true; }
  S::GainAdaptive *g = dynamic_cast<S::GainAdaptive *>(e); S::GainHyperbolic *h = dynamic_cast<S::GainHyperbolic *>(e);
  if (g || h) {
    if (c == "setConstant") { if (g) call(*e, c, {Val(a[1].n / 10)}); else h->init(a[1].n / 10); }
    else if (c == "set") { double v0 = a[1].n / 10, vi = a[2].n / 10, tn = v0 == vi ? 1 : (v0 - vi) * L2 * a[3].n; if (g) call(*e, c, {Val(v0), Val(vi), Val(tn)}); else h->init(v0, vi, tn, a[4].n); }
    else if (c == "point") call(*e, "setByPoint", {Val(a[1].n / 10), Val(a[2].n / 10), Val(a[3].n), Val(std::pow(2., -a[4].n))});
    else if (c == "force") { if (g) g->forceConstant(); else h->forceConstant(); }
    else if (c == "error") { ++t; give<Vec>("error", vec(a[1])); seen(); o.s("ok").r(sig<double>(*e, "gain")(t) * (g ? 163840 : 15300)); return true; }
    else return false;
    o.s("ok"); return true; }
  if (c == "reach") { fresh(); e = new S::SmoothReach("e"); o.s("ok"); }
  else if (c == "goal") { call(*e, "set", {Val(uvec(a[1])), Val(a[2].i())}); o.s("ok"); }
  else if (c == "param") { double q = a[2].n; call(*e, "param", {Val(a[1].i()), Val(a[1].i() == 1 ? L2 * q / 3 : a[1].i() == 2 ? 2. / 3 * (q == 1 ? 1 : q == 2 ? std::sqrt(3.) : 1 / std::sqrt(3.)) : q)}); o.s("ok"); }
  else if (c == "start") { in<Vec>("start", uvec(a[1])); o.s("ok"); }
  else if (c == "reached") { next(a[1].i()); seen(); as<S::SmoothReach>()->goalSOUT.setReady(); o.s("ok").v(as<S::SmoothReach>()->goalSOUT(t), 3060 / U()); }
  else if (c == "getters") { S::SmoothReach *r = as<S::SmoothReach>(); o.s("ok").v(r->getGoal(), 1 / U()).i(r->getLength()).i(r->getStart()); }
  else if (c == "period") { fresh(); e = new Period; o.s("ok"); }
  else if (c == "resize") { as<Period>()->size(a[1].i()); o.s("ok"); }
  else if (c == "motion") { as<Period>()->put(a[1].i() - 1, a[2]); o.s("ok"); }
  else if (c == "moved") { Vec r; as<Period>()->computeMotion(r, a[1].i()); o.s("ok").v(r, 2 / U()); }
  else if (c == "freezer") { fresh(); e = new S::CoMFreezer("e"); o.s("ok"); }
  else if (c == "com") { t += a[3].i(); S::CoMFreezer *f = as<S::CoMFreezer>(); change<Vec>("CoMRef", uvec(a[1])); static bool was; if (!feed.count("PG") || was != a[2].b()) { feed["PG"] = [] {}; was = a[2].b(); give<unsigned>("PGInProcess", was ? 1 : 0); } seen(); o.s("ok").v(sig<Vec>(*f, "freezedCoM")(t), 1 / U()); }
  else if (c == "average") { fresh(); e = new S::ExpMovingAvg("e"); o.s("ok"); }
  else if (c == "alpha") { call(*e, "setAlpha", {Val(a[1].n / 4)}); o.s("ok"); }
  else if (c == "update") { ++t; give<Vec>("update", uvec(a[1])); seen(); o.s("ok").v(sig<Vec>(*e, "average")(t), 4096 / U()); }
  else if (c == "ascent") { fresh(); e = new S::GradientAscent("e"); o.s("ok"); }
  else if (c == "gradient") { ++t; give<Vec>("gradient", uvec(a[1])); give<double>("learningRate", a[2].n); seen(); o.s("ok").v(sig<Vec>(*e, "value")(t), 1 / U()); }
  else if (c == "sign") { S::BinaryIntToUint *b = new S::BinaryIntToUint("sign"); b->binaryIntSIN = a[1].i(); o.s("ok").i(b->binaryUintSOUT(1)); delete b; }
  else return false;
  return true; }
static bool limits(const std::string &c, const J &a, O &o) {
  if (c == "joint") { fresh(); e = new S::JointLimitator("e"); o.s("ok"); }
  else if (c == "in") { change<Vec>("joint", vec(a[1])); change<Vec>("lowerJl", vec(a[2])); change<Vec>("upperJl", vec(a[3])); o.s("ok"); }
  else if (c == "control") { change<Vec>("controlIN", 200 * vec(a[1])); ++t; seen(); o.s("ok").v(sig<Vec>(*e, "control")(t), 1. / 200); }
  else if (c == "width") { ++t; seen(); o.s("ok").v(sig<Vec>(*e, "widthJl")(t)); }
  else if (c == "neck") { fresh(); e = (a[1].i() == 15 && a[2].i() == 16 && a[3].i() == 1) ? new S::NeckLimitation("e") : new Neck(a); o.s("ok"); }
  else if (c == "look") { ++t; give<Vec>("joint", vec(a[1], 10000)); seen(); o.s("ok").v(sig<Vec>(*e, "jointLimited")(t), 10000); }
  else if (c == "gripper") { fresh(); e = new S::GripperControlPlugin("e"); o.s("ok"); }
  else if (c == "offset") { int n = a[1].i(); call(*e, "offset", {Val(n > 0 ? std::pow(2., -n) : n == 0 ? 1. : n == -1 ? 0. : n == -2 ? 2. : -.5)}); o.s("ok"); }
  else if (c == "set" && dynamic_cast<S::GripperControlPlugin *>(e)) { std::string n = a[1].s;
    if (n == "selec") { S::Flags f; for (size_t i = 0; i < a[2].size(); ++i) f.add(a[2][i].i() != 0); feed["selec"] = [f] { as<S::GripperControlPlugin>()->selectionSIN = f; }; feed["selec"](); }
    else in<Vec>(n == "position" ? "positionFullIN" : n == "torque" ? "torqueFullIN" : n == "limit" ? "torqueLimitFullIN" : "positionDes", vec(a[2]) * Up());
    o.s("ok"); }
  else if (c == "grip") { next(); seen(); o.s("ok").v(sig<Vec>(*e, "reference")(t), 4096 / Up()); }
  else if (c == "clamp") { fresh(); e = new S::ClampWorkspace("e"); t = -1; o.s("ok"); }
  else if (c == "pose") { H r = homo(a[1]), p = homo(a[2]); r.translation() /= 1000; p.translation() /= 1000; static H wr, wp; if (feed.empty() || wr.matrix() != r.matrix()) in<H>("positionref", r); if (feed.size() < 2 || wp.matrix() != p.matrix()) in<H>("position", p); wr = r; wp = p; o.s("ok"); }
  else if (c == "clamped") { ++t; seen(); if (a[1].s == "ref") { const H &h = sig<H>(*e, "ref")(t); Eigen::Matrix3d m = h.linear(); double y = std::atan2(-m(1, 2), -m(0, 2)); Eigen::Matrix3d x(Eigen::AngleAxisd(y, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(-M_PI / 2, Eigen::Vector3d::UnitY()));
      Vec v(4); v << h.translation() * 1000, y / 3.14159 * 180 * 30; if ((x - m).norm() > 1e-5) v(0) = std::nan(""); for (int i = 0; i < 4; ++i) v(i) = std::fabs(v(i) - std::round(v(i))) < (i == 3 ? 3e-2 : 1e-3) ? std::round(v(i)) : v(i); o.s("ok").v(v); }
    else o.s("ok").raw(O::ms(sig<Mat>(*e, a[1].s)(t), 1)); }
  else return false;
  return true; }
static Vec lastx;
static bool control(const std::string &c, const J &a, O &o) {
  if (c == "pd") { fresh(); e = new S::ControlPD("e"); o.s("ok"); }
  else if (c == "gr") { fresh(); e = new S::ControlGR("e"); o.s("ok"); }
  else if (c == "adm") { fresh(); e = new S::core::AdmittanceControlOpPoint("e"); o.s("ok"); }
  else if (c == "kalman") { fresh(); e = new S::Kalman("e"); o.s("ok"); }
  else if (c == "imu") { fresh(); e = new S::MadgwickAHRS("e"); o.s("ok"); }
  else if (c == "set") { const std::string &n = a[1].s; if (n == "matrixA") in<Mat>(n, mat(a[2])); else if (n == "opPose" || n == "sensorPose") in<H>(n, homo(a[2])); else in<Vec>(n, vec(a[2]) * (n == "Kp" || n == "Kd" ? 1 : Up())); o.s("ok"); }
  else if (c == "get") { if (dynamic_cast<S::ControlPD *>(e) || dynamic_cast<S::ControlGR *>(e)) ++t; else next(); seen(); o.s("ok").v(sig<Vec>(*e, a[1].s)(t), 1 / Up()); }
  else if (c == "held") { ++t; seen(); o.s("ok").v(sig<Vec>(*e, "w_force")(t), 1 / Up()); }
  else if (c == "same") o.s("ok").v(sig<Vec>(*e, a[1].s)(t), 1 / Up());
  else if (c == "init") { call(*e, "init", {Val(a[1].n)}); o.s("ok"); }
  else if (c == "resetDq") { call(*e, c); o.s("ok"); }
  else if (c == "begin") { call(*e, "setInitialVariance", {Val(Mat(mat(a[1]) * Up()))}); call(*e, "setInitialState", {Val(uvec(a[2]))}); o.s("ok").raw(O::ms(sig<Mat>(*e, "P")(0), 1 / Up())).v(sig<Vec>(*e, "x_est")(0), 1 / U()); }
  else if (c == "model") { const char *n[] = {"F", "H", "Q", "R"}; for (int i = 0; i < 4; ++i) if (a[i + 1].size()) { dg::SignalPtr<Mat, int> &s = dynamic_cast<dg::SignalPtr<Mat, int> &>(e->getSignal(n[i])); s = Mat(mat(a[i + 1]) * (i > 1 ? Up() : 1)); } o.s("ok"); }
  else if (c == "measure") { change<Vec>("y", uvec(a[1])); change<Vec>("y_pred", uvec(a[2])); change<Vec>("x_pred", uvec(a[3])); o.s("ok"); }
  else if (c == "P") { ++t; seen(); o.s("ok").raw(O::ms(sig<Mat>(*e, "P")(t), 1 / Up())); }
  else if (c == "x") { ++t; seen(); o.s("ok").v(sig<Vec>(*e, "x_est")(t), 1 / U()); }
  else if (c == "beta") { call(*e, "setBeta", {Val(a[1].n / 8)}); o.s("ok"); }
  else if (c == "getBeta") { double b = call(*e, c).value(); o.s("ok").r(b * 800); }
  else if (c == "quat") { Vec q = vec(a[1]); q /= q.norm(); call(*e, "set_imu_quat", {Val(q)}); o.s("ok"); }
  else if (c == "attitude") { ++t; static Vec wa, wg; Vec va = vec(a[1]), vg = vec(a[2], 2); const bool all = !feed.count("gyroscope") || (va == wa && vg == wg);   // only what changes is set
    if (all || va != wa) in<Vec>("accelerometer", va); if (all || vg != wg) in<Vec>("gyroscope", vg); wa = va; wg = vg; seen(); o.s("ok"); quat(sig<Vec>(*e, "imu_quat")(t), o); }
  else return false;
  return true; }
static void again(O &o) {
  o.s("ok");
  if (auto *g = dynamic_cast<S::CoMFreezer *>(e)) o.v(g->freezedCoMSOUT(t), 1 / U());
  else if (dynamic_cast<S::ExpMovingAvg *>(e)) o.v(dynamic_cast<S::ExpMovingAvg *>(e)->averageSOUT.accessCopy(), 4096 / U());
  else if (dynamic_cast<S::GradientAscent *>(e)) o.v(dynamic_cast<S::GradientAscent *>(e)->valueSOUT.accessCopy(), 1 / U());
  else if (dynamic_cast<S::GripperControlPlugin *>(e)) o.v(sig<Vec>(*e, "reference")(t), 4096 / Up());
  else if (dynamic_cast<S::MadgwickAHRS *>(e)) quat(sig<Vec>(*e, "imu_quat")(t), o); }
static void op(const J &a, O &o) {
  const std::string &c = a[0].s;
  if (c == "period" && dynamic_cast<S::MadgwickAHRS *>(e)) { call(*e, "init", {Val(a[1].n)}); o.s("ok"); return; }
  if (c == "unit") { unit(a[1].i()); o.s("ok"); return; }
  if (c == "again") { again(o); return; }
  if (gains(c, a, o) || limits(c, a, o) || control(c, a, o)) return;
  o.s("unknown"); }
int main() { classifier() = [](O &o) { bool r = excname(o); ++t; if (e) for (const char *n : {"control", "position_error", "velocity_error"}) if (e->hasSignal(n)) e->getSignal(n).setReady(); return r; }; return run(reset, op); }
