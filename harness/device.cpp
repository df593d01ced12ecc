// The robot as a device.
#include "ent.hh"
#include <sot/core/device.hh>
using namespace vh; using namespace dynamicgraph::sot;
static const double Q = M_PI / 2;
#ifdef SIMU
#include <sot/core/robot-simu.hh>
struct Dev : RobotSimu { Dev(const std::string &n) : RobotSimu(n) { call(*this, "setTimeStep", {Val(.001)}); } };
static void increment(Device &d, double x) { call(d, "increment", {Val(x)}); }
#else
struct Dev : Device { Dev(const std::string &n) : Device(n) { timestep_ = .001; } };
static void increment(Device &d, double x) { d.increment(x); }
#endif
static Dev *D; static Vec U; static int asked, ranB, ranA, N; static std::string fb, fa; static int uncounted;
static dynamicgraph::Signal<Vec, int> *ctl; static dynamicgraph::SignalTimeDependent<int, int> *sb, *sa;
static Vec &fu(Vec &r, int t) { asked = t; return r = U; }
static void boom(const std::string &k) { if (k == "std") throw std::runtime_error("x"); if (k == "str") throw "x"; if (k == "int") throw 3; }
static int &before(int &r, int t) { ranB = t; boom(fb); return r = t; }
static int &after(int &r, int t) { ranA = t; boom(fa); return r = t; }
static double W() { return std::fabs(units()[0]); }        // unit of the joints and of the translation of the base
static void reset() {
  unit(); wipe(); U = Vec(); asked = ranB = ranA = -9; fb = fa = ""; N = 6; D = new Dev("robot");
  ctl = new dynamicgraph::Signal<Vec, int>("ctl"); ctl->setFunction(fu);
  sb = new dynamicgraph::SignalTimeDependent<int, int>(before, dynamicgraph::sotNOSIGNAL, "before"); sb->setDependencyType(dynamicgraph::TimeDependency<int>::ALWAYS_READY);
  sa = new dynamicgraph::SignalTimeDependent<int, int>(after, dynamicgraph::sotNOSIGNAL, "after"); sa->setDependencyType(dynamicgraph::TimeDependency<int>::ALWAYS_READY);
  D->periodicCallBefore().addSignal("b", *sb); D->periodicCallAfter().addSignal("a", *sa);
}
static Vec conf(const J &j, bool full) { Vec v = vec(j) * W(); if (full && v.size() >= 6) v.segment<3>(3) *= Q / W(); return v; }
static void pose(const Vec &q, O &o) {
  Mat R = (Eigen::AngleAxisd(q(5), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(q(4), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(q(3), Eigen::Vector3d::UnitX())).toRotationMatrix();
  o.s("ok").raw("[" + O::vs(Vec(q.head(3)), 32 / W()) + "," + O::ms(R) + "," + O::vs(Vec(q.tail(q.size() - 6)), 32 / W()) + "]"); }
static void op(const J &a, O &o) {
  std::string c = a[0].s; const J &x = a[1];
  if (c == "unit") unit(x.i());
  else if (c == "resize") { call(*D, "resize", {Val((unsigned)x.i())}); N = x.i(); }
  else if (c == "set") { call(*D, "set", {Val(conf(x, true))}); N = x.size(); }
  else if (c == "root") { Mat M = Mat::Identity(4, 4); M.block(0, 0, 3, 3) = mat(a[2]); M.block(0, 3, 3, 1) = vec(x) * W(); call(*D, "setRoot", {Val(M)}); }
  else if (c == "setvel") call(*D, "setVelocity", {Val(conf(x, true))});
  else if (c == "second") call(*D, "setSecondOrderIntegration");
  else if (c == "none") D->setNoIntegration();
  else if (c == "type") call(*D, "setControlInputType", {Val(x.s)});
  else if (c == "sanity") call(*D, "setSanityCheck", {Val(x.b())});
  else if (c == "bounds") { Vec lo = vec(a[2]) * W(), hi = vec(a[3]) * W(); for (int i = 3; i < 6; ++i) { if (i < lo.size()) lo(i) = -1000; if (i < hi.size()) hi(i) = 1000; }
    call(*D, x.s == "pos" ? "setPositionBounds" : x.s == "vel" ? "setVelocityBounds" : "setTorqueBounds", {Val(lo), Val(hi)}); }
  else if (c == "u") { U = conf(x, (int)x.size() == N); dynamic_cast<dg::SignalPtr<Vec, int> &>(D->getSignal("control")).plug(ctl); }
  else if (c == "nan") { U = Vec::Zero(N); U(N - 1) = NAN; dynamic_cast<dg::SignalPtr<Vec, int> &>(D->getSignal("control")).plug(ctl); }
  else if (c == "fail") { (x.s == "before" ? fb : fa) = a[2].s; }
  else if (c == "dt") call(*D, "setTimeStep", {Val(x.n / 1000)});
  else if (c == "getdt") { o.s("ok").r((double)call(*D, "getTimeStep").value(), 1000); return; }
  else if (c == "inc") {
    asked = ranB = ranA = -9;
    try { increment(*D, x.n / 4); } catch (...) { excname(o); o.i(ranB); return; }
    o.s("ok").i(D->stateSOUT.getTime()).i(asked).i(ranB).i(ranA); return; }
  else if (c == "get") {
    if (x.s == "state") pose(sig<Vec>(*D, "state").accessCopy(), o);
    else if (x.s == "motor") { const Vec &m = sig<Vec>(*D, "motorcontrol").accessCopy(); if (!m.size()) o.s("ok").s("none"); else pose(m, o); }
    else if (x.s == "vel") { Vec v = sig<Vec>(*D, "velocity").accessCopy(); if (v.hasNaN()) { o.s("ok").raw("[]"); return; } if (v.size() == N && N >= 6) v.segment<3>(3) /= Q / W(); o.s("ok").v(v, 32 / W()); }
    else { const Vec &p = sig<Vec>(*D, "previousControl").accessCopy(), &t = sig<Vec>(*D, "ptorque").accessCopy(); bool z = p.isZero(0) && t.isZero(0) && p.size() == t.size(); int n = -1;
      for (const char *f : {"forceRLEG", "forceLLEG", "forceRARM", "forceLARM"}) { const Vec &w = sig<Vec>(*D, f).accessCopy(); z = z && w.isZero(0); if (n >= 0 && n != w.size()) z = false; n = w.size(); }
      const Vec &w = sig<Vec>(*D, "zmppreviouscontroller").accessCopy(); z = z && w.isZero(0) && (n == 0 || w.size() == 3);
      for (const char *s : {"robotState", "robotVelocity", "attitude", "attitudeIN", "zmp"}) z = z && D->hasSignal(s);
      if (z) o.s("ok").i(p.size()).i(n); else o.s("not zero"); }
    return; }
  else { o.s("?"); return; }
  o.s("ok");
}
int main() { classifier() = excname; return run(reset, op); }
