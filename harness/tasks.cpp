// Tasks assembled from features.
#include "ent.hh"
#include <sot/core/exception-factory.hh>
#include <sot/core/exception-feature.hh>
#include <sot/core/exception-task.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/task-conti.hh>
#include <sot/core/task-pd.hh>
#include <sot/core/task-unilateral.hh>
#include <sot/core/task.hh>
using namespace vh; using namespace dynamicgraph::sot;
struct Feat : FeatureAbstract {
  static const std::string CLASS_NAME; const std::string &getClassName() const { return CLASS_NAME; }
  Vec e, d; Mat j; bool bad;
  Feat(const std::string &n) : FeatureAbstract(n), e(Vec::Zero(1)), d(Vec::Zero(1)), j(Mat::Zero(1, 1)), bad(false) { signalRegistration(errordotSOUT); errorSOUT.clearDependencies(); errordotSOUT.clearDependencies(); jacobianSOUT.clearDependencies(); dimensionSOUT.clearDependencies(); }
  void check() { if (bad) throw ExceptionFeature(ExceptionFeature::UNCOMPATIBLE_SIZE, "broken"); }
  unsigned &getDimension(unsigned &r, int) { return r = e.size(); }
  Vec &computeError(Vec &r, int) { check(); return r = e; }
  Vec &computeErrorDot(Vec &r, int) { check(); return r = d; }
  Mat &computeJacobian(Mat &r, int) { check(); return r = j; }
  void touch() { dimensionSOUT.setReady(); errorSOUT.setReady(); errordotSOUT.setReady(); jacobianSOUT.setReady(); }
  DECLARE_NO_REFERENCE;
};
const std::string Feat::CLASS_NAME = "Feat";
static std::vector<Feat *> F; static Task *K[5]; static TaskPD *pd; static TaskUnilateral *un; static TaskConti *co; static int T;
// the difference of TaskPD is that of the last two periods: its errors are new at each of them
static void next() { ++T; for (FeatureAbstract *f : pd->getFeatureList()) f->errorSOUT.setReady(); }
// other things in the network read the features, gains and references too
static void polling() { for (int i = 1; i <= 3; ++i) if (!F[i]->bad) { F[i]->dimensionSOUT.recompute(T); F[i]->errorSOUT.recompute(T); F[i]->errordotSOUT.recompute(T); F[i]->jacobianSOUT.recompute(T); }
  for (int k = 1; k <= 4; ++k) poll(*K[k], T); }
static void touch(Task &t) { t.errorSOUT.setReady(); t.errorTimeDerivativeSOUT.setReady(); t.jacobianSOUT.setReady(); t.taskSOUT.setReady(); pd->errorDotSOUT.setReady(); }
static double U() { return std::fabs(units()[0]); }
static double V() { return std::fabs(units()[1]); }     // gains and derivatives are also in a unit of time
static Vec uvec(const J &a) { return vec(a) * U(); }
static void reset() {
  unit();
  wipe(); T = 1; F.assign(1, nullptr); for (int i = 1; i <= 3; ++i) F.push_back(new Feat("f" + std::to_string(i)));
  K[1] = new Task("t1"); K[2] = pd = new TaskPD("t2"); K[3] = un = new TaskUnilateral("t3"); K[4] = co = new TaskConti("t4"); }
static void get(const std::string &c, int k, O &o) {
  if (c == "error") { const Vec &v = sig<Vec>(*K[k], "error").access(T); o.s("ok").v(v, 1 / U()); }
  else if (c == "errdot") { const Vec &v = sig<Vec>(*K[k], "errorTimeDerivative").access(T); o.s("ok").v(v, 1 / U() / V()); }
  else if (c == "jac") { const Mat &v = sig<Mat>(*K[k], "jacobian").access(T); o.s("ok").m(v, 1 / U()); }
  else { const VectorMultiBound &v = sig<VectorMultiBound>(*K[k], "task").access(T); const double sc = 4 / U() / V(); std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; if (v[i].getMode() == MultiBound::MODE_SINGLE) r += O::rs(v[i].getSingleBound(), sc);
      else { r += "[" + O::rs(v[i].getDoubleBound(MultiBound::BOUND_INF), sc) + "," + O::rs(v[i].getDoubleBound(MultiBound::BOUND_SUP), sc) + "]"; } }
    o.s("ok").raw(r + "]"); }
}
static void op(const J &a, O &o) {
  std::string c = a[0].s; int k = a[1].i(); const J &x = a[2];
  if (c == "feat") { Feat &f = *F[k]; f.e = uvec(a[2]); f.d = uvec(a[3]) * V(); f.j = Mat::Zero(a[5].size(), a[4].i()); for (size_t r = 0; r < a[5].size(); ++r) for (int q = 0; q < a[4].i(); ++q) f.j(r, q) = a[5][r][q].n * U(); f.bad = false; f.touch(); }
  else if (c == "err") { F[k]->e = uvec(x); F[k]->errorSOUT.setReady(); }
  else if (c == "dot") { F[k]->d = uvec(x) * V(); F[k]->errordotSOUT.setReady(); }
  else if (c == "fjac") { F[k]->j = mat(x) * U(); F[k]->jacobianSOUT.setReady(); }
  else if (c == "break") { F[k]->bad = true; F[k]->touch(); }
  else if (c == "add") { call(*K[k], "add", {Val(std::string(x.i() ? "f" + std::to_string(x.i()) : "nobody"))}); }
  else if (c == "clear") { call(*K[k], "clear"); }
  else if (c == "gain") sig<double>(*K[k], "controlGain") = x.n / 2 * V();
  else if (c == "wd") { call(*K[k], "setWithDerivative", {Val(x.b())}); }
  else if (c == "getwd") { bool b = call(*K[k], "getWithDerivative").value(); o.b(b); return; }
  else if (c == "beta") { call(*pd, "setBeta", {Val(x.n / 2 * V())}); }
  else if (c == "din") { dynamic_cast<dg::SignalPtr<Vec, int> &>(pd->getSignal("errorDot")) = uvec(x); }
  else if (c == "dplug") { pd->getSignal("errorDot").plug(&pd->getSignal("errorDotOUT")); }
  else if (c == "pos") sig<Vec>(*un, "position") = uvec(x);
  else if (c == "inf") sig<Vec>(*un, "referenceInf") = uvec(x);
  else if (c == "sup") sig<Vec>(*un, "referenceSup") = uvec(x);
  else if (c == "dt") sig<double>(*un, "dt") = 1 / V() / x.n;
  else if (c == "reft") { co->referenceTime(x.i()); touch(*co); }
  else if (c == "tick") ; else if (c == "unit") { unit(k, x.i()); if (V() != 1) call(*pd, "setBeta", {Val(V())}); }
  else if (c == "list") { std::string s = call(*K[k], "list").value(); o.s(s); return; }
  else if (c == "show") { std::ostringstream s; K[k]->display(s); o.s(s.str()); return; }
  else if (c == "graph") { std::ostringstream s; K[k]->writeGraph(s); o.s(s.str()); return; }
  else {
    try { if (odd(T)) polling(); get(c, k, o); if (c == "task" && k == 4) { co->jacobianSOUT.setReady(); for (int i = 1; i <= 3; ++i) F[i]->jacobianSOUT.setReady(); } }
    catch (...) { next(); touch(*K[k]); for (int i = 1; i <= 3; ++i) F[i]->touch(); throw; }
    return;
  }
  if (c == "din") ++T; else next();
  o.s("ok"); }
static bool cls(O &o) {
  try { throw; }
  catch (const ExceptionTask &e) { o.s("exc").s("Task").i(ExceptionAbstract(e).getCode()); }
  catch (const ExceptionFeature &e) { o.s("exc").s("Feature").i(ExceptionAbstract(e).getCode()); }
  catch (const ExceptionFactory &e) { o.s("exc").s("Factory").i(ExceptionAbstract(e).getCode()); }
  catch (const ExceptionAbstract &e) { o.s("exc").s("sot").i(ExceptionAbstract(e).getCode()); }
  catch (const dg::ExceptionAbstract &e) { o.s("exc").s("dg").i(0); }
  catch (...) { o.s("exc").s("other").i(0); }
  return true; }
int main() { classifier() = cls; return run(reset, op); }
