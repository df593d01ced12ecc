// The solver and its stack of tasks.
#include "ent.hh"
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>
using namespace vh; using namespace dynamicgraph::sot;
static Sot *S;
// (an input that is unplugged has no announcement of its own)
struct Clock { int t; void operator=(int x) { t = x; } void tick() { ++t; } void cut() { ++t; S->controlSOUT.setReady(); } operator int() const { return t; } } T; static int basisQ, basisU;
static double V() { return std::fabs(units()[0]); }      // unit of the errors and of the control
struct Def { std::vector<std::vector<int>> rows; std::vector<double> err; };
static Mat Q(int n) {  // orthogonal change of joint coordinates
  Mat q = Mat::Identity(n, n);
  if (basisQ == 1) for (int i = 0; i + 1 < n; i += 2) { q(i, i) = .6; q(i, i + 1) = .8; q(i + 1, i) = -.8; q(i + 1, i + 1) = .6; }
  if (basisQ == 2) { for (int i = 0; i + 1 < n; ++i) { Mat g = Mat::Identity(n, n); g(i, i) = .28; g(i, i + 1) = .96; g(i + 1, i) = -.96; g(i + 1, i + 1) = .28; q = g * q; } }
  return q; }
static Mat U(int n) { Mat u = Mat::Identity(n, n); if (basisU) for (int i = 0; i + 1 < n; ++i) { Mat g = Mat::Identity(n, n); g(i, i) = .6; g(i, i + 1) = -.8; g(i + 1, i) = .8; g(i + 1, i + 1) = .6; u = g * u; } return u; }
static Mat jac(const Def &d) { int n = S->getNbDof(); Mat A = Mat::Zero(d.rows.size(), n); for (size_t i = 0; i < d.rows.size(); ++i) if (d.rows[i][0] <= n) A(i, d.rows[i][0] - 1) = d.rows[i][1]; return U(A.rows()) * A * Q(n); }
static Vec err(const Def &d) { int n = S->getNbDof(); Vec e(d.err.size()); for (size_t i = 0; i < d.err.size(); ++i) e(i) = d.rows[i][0] <= n ? d.err[i] : 0; return V() * (U(e.size()) * e); }
struct RowTask : TaskAbstract {
  static const std::string CLASS_NAME; const std::string &getClassName() const { return CLASS_NAME; }
  Def d;
  VectorMultiBound &ft(VectorMultiBound &v, int) { Vec e = err(d); v.resize(e.size()); for (int i = 0; i < e.size(); ++i) v[i] = e(i); return v; }
  Mat &fj(Mat &m, int) { m = jac(d); return m; }
  RowTask(const std::string &n) : TaskAbstract(n) { taskSOUT.setFunction(boost::bind(&RowTask::ft, this, _1, _2)); jacobianSOUT.setFunction(boost::bind(&RowTask::fj, this, _1, _2)); }
};
const std::string RowTask::CLASS_NAME = "RowTask";
static std::vector<TaskAbstract *> tk; static std::vector<Def> defs; static std::vector<FeatureGeneric *> ft; static FeaturePosture *post; static dynamicgraph::Signal<Vec, int> *postState;
static const int NT = 5;   // 1..3 plain tasks, 4 a Task with a generic feature, 5 a Task with a posture feature
static std::string nm(int i) { return "t" + std::to_string(i); }
static void feed(int i) {
  if (i == 4) { ft[0]->jacobianSIN = jac(defs[4]); Vec e = -err(defs[4]); ft[0]->errorSIN = e; }
}
static void touch() { for (int i = 1; i <= 3; ++i) { tk[i]->taskSOUT.setReady(); tk[i]->jacobianSOUT.setReady(); } feed(4); }
static void reset() {
  unit(); wipe(); T = 1; basisQ = basisU = 0; tk.assign(NT + 1, nullptr); defs.assign(NT + 1, Def()); ft.clear();
  S = new Sot("sot");
  for (int i = 1; i <= 3; ++i) tk[i] = new RowTask(nm(i));
  Task *t = new Task("t4"); FeatureGeneric *f = new FeatureGeneric("f4"); ft.push_back(f); t->addFeature(*f); t->controlGainSIN = 1.; tk[4] = t;
  t = new Task("t5"); post = new FeaturePosture("f5"); t->addFeature(*post); t->controlGainSIN = 1.; tk[5] = t;
}
static void op(const J &a, O &o) {
  std::string c = a[0].s; int i = a[1].i();
  if (c == "setSize") { call(*S, "setSize", {Val((unsigned)i)}); T.tick(); touch(); o.s("ok"); }
  else if (c == "getSize") { unsigned n = call(*S, "getSize").value(); o.i(n); }
  else if (c == "push" || c == "remove" || c == "up" || c == "down") { call(*S, c, {Val(i ? nm(i) : std::string("nosuchtask"))}); o.s("ok"); }
  else if (c == "clear") { call(*S, "clear"); o.s("ok"); }
  else if (c == "pop") { TaskAbstract &t = S->pop(); o.s("ok").s(t.getName()); }
  else if (c == "exist") o.b(S->exist(*tk[i]));
  else if (c == "list") { std::string s = call(*S, "list").value(); o.s(s); }
  else if (c == "display") { std::string s = call(*S, "display").value(); o.s(s); }
  else if (c == "graph") { std::ostringstream s; S->writeGraph(s); o.s(s.str()); }
  else if (c == "unit") { unit(i); o.s("ok"); }
  else if (c == "basis") { basisQ = a[1].i(); basisU = a[2].i(); T.tick(); touch(); o.s("ok"); }
  else if (c == "task") { Def d; for (size_t k = 0; k < a[2].size(); ++k) d.rows.push_back(a[2][k].ints()); for (size_t k = 0; k < a[3].size(); ++k) d.err.push_back(a[3][k].n);
    defs[i] = d; if (i <= 3) ((RowTask *)tk[i])->d = d; T.tick(); touch(); o.s("ok"); }
  else if (c == "sel") { ((Task *)tk[i])->controlSelectionSIN = a[2].b() ? Flags(true) : Flags(false); T.tick(); o.s("ok"); }
  else if (c == "selbits") { ((Task *)tk[i])->controlSelectionSIN = Flags(a[2].s.c_str()); T.tick(); o.s("ok"); }
  else if (c == "q0") { if (a[1].size()) { Vec v = vec(a[1]) * V(); if (v.size() == (long)S->getNbDof()) v = Q(v.size()).transpose() * v; S->q0SIN = v; } else { S->q0SIN.unplug(); T.cut(); } T.tick(); o.s("ok"); }
  else if (c == "proj") { int n = S->getNbDof(); std::vector<int> js = a[1].ints(); Mat K = Mat::Zero(n, js.size()); for (size_t k = 0; k < js.size(); ++k) K(js[k] - 1, k) = 1; S->proj0SIN = Mat(Q(n).transpose() * K); T.tick(); o.s("ok"); }
  else if (c == "badproj") { S->proj0SIN = Mat(Mat::Identity(S->getNbDof() + 1, 1)); T.tick(); o.s("ok"); }
  else if (c == "noproj") { S->proj0SIN.unplug(); T.cut(); o.s("ok"); }
  else if (c == "damp") { S->inversionThresholdSIN = a[1].n / 10; T.tick(); o.s("ok"); }
  else if (c == "max") { if (a[1].i() < 0) call(*S, "setMaxControlIncrementSquaredNorm", {Val(std::numeric_limits<double>::max())}); else call(*S, "setMaxControlIncrementSquaredNorm", {Val(a[1].n / 3200 * V() * V())}); T.tick(); o.s("ok"); }
  else if (c == "getMax") { double m = call(*S, "getMaxControlIncrementSquaredNorm").value(); if (m == std::numeric_limits<double>::max()) o.i(-1); else o.r(m, 3200 / V() / V()); }
  else if (c == "accel") { call(*S, "enablePostureTaskAcceleration", {Val(a[1].b())}); T.tick(); o.s("ok"); }
  else if (c == "getAccel") { bool b = call(*S, "isPostureTaskAccelerationEnabled").value(); o.b(b); }
  else if (c == "posture") { // state, desired posture, selected joints
    Vec st = vec(a[1]) * V(), p = vec(a[2]) * V(); sig<Vec>(*post, "state") = st; sig<Vec>(*post, "posture") = p; std::vector<int> on = a[3].ints();
    for (int j = 6; j < st.size(); ++j) post->selectDof(j, false); for (int j : on) post->selectDof(j - 1, true); T.tick(); o.s("ok"); }
  else if (c == "tick") { T.tick(); o.s("ok"); }
  else if (c == "control") { if (odd(T)) { poll(*S, T); for (int k = 1; k <= NT; ++k) { poll(*tk[k], T); if (k <= 3) { tk[k]->taskSOUT.recompute(T); tk[k]->jacobianSOUT.recompute(T); } } poll(*post, T); poll(*ft[0], T); } const Vec &u = S->controlSOUT(T); Vec r = Q(u.size()) * u; o.s("ok").v(r, 40 / V(), 1e-6); }
  else o.s("?");
}
int main() { classifier() = [](O &o) { bool r = excname(o); if (S) { ++T.t; S->controlSOUT.setReady(); } return r; }; return run(reset, op); }
