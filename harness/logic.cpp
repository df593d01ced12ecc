// Event, latch, switch, sign, clocks.
#include "ent.hh"
#include <sys/time.h>
#include <time.h>
#include <sot/core/binary-int-to-uint.hh>
#include <sot/core/latch.hh>
#include <sot/core/switch.hh>
#include <sot/core/time-stamp.hh>
#include <sot/core/timer.hh>
using namespace vh; using namespace dynamicgraph::sot;
// the clocks are ours
static long sec, us; static clock_t cpu_;
extern "C" int gettimeofday(struct timeval *tv, void *) { tv->tv_sec = sec; tv->tv_usec = us; return 0; }
extern "C" clock_t clock(void) { return cpu_; }
static const int NONE = -99;
struct Ent : dg::Entity { DYNAMIC_GRAPH_ENTITY_DECL(); int id; dg::SignalTimeDependent<int, int> s;
  Ent(const std::string &n, int i) : Entity(n), id(i), s(boost::bind(&Ent::f, this, _1, _2), dg::sotNOSIGNAL, "Ent(" + n + ")::output(int)::s") {
    s.setDependencyType(dg::TimeDependency<int>::ALWAYS_READY); signalRegistration(s); }
  int &f(int &r, int t); };
const std::string Ent::CLASS_NAME = "Ent";
static std::vector<int> calls; static bool bad[8]; static int T, wrong;
int &Ent::f(int &r, int t) { calls.push_back(id); if (t != T) ++wrong; if (bad[id]) throw std::range_error("bad signal"); return r = t; }
static Ent *E[4]; static dg::Entity *V; static Latch *L; static BinaryIntToUint *B; static TimeStamp *TS;
static dg::Entity *SW, *TI; static int kind;
static dg::Signal<bool, int> *cond, *bsel; static dg::Signal<int, int> *sel, *bin; static std::vector<dg::SignalBase<int> *> ins;
static double wv; static long wus; static clock_t wcpu; static dg::SignalTimeDependent<double, int> *wd; static dg::SignalTimeDependent<Vec, int> *wV;
static void spend() { us += wus; sec += us / 1000000; us %= 1000000; cpu_ += wcpu * (CLOCKS_PER_SEC / 1000000); }
static double &fd(double &r, int) { spend(); return r = wv; }
static Vec &fV(Vec &r, int) { spend(); r.resize(2); r << wv, wv + 1; return r; }
static void setup(int k) {
  wipe(); T = 0; wrong = 0; sec = 10; us = 0; cpu_ = 0; kind = k; ins.assign(16, 0);
  for (int i = 1; i < 4; ++i) { E[i] = new Ent("ent" + std::to_string(i), i); bad[i] = false; }
  V = dg::FactoryStorage::getInstance()->newEntity("Event", "ev"); L = new Latch("latch"); B = new BinaryIntToUint("sign"); TS = new TimeStamp("ts");
  cond = new dg::Signal<bool, int>("cond"); bsel = new dg::Signal<bool, int>("bsel"); sel = new dg::Signal<int, int>("sel"); bin = new dg::Signal<int, int>("bin");
  SW = kind == 0 ? (dg::Entity *)new Switch<Vec, int>("sw") : kind == 1 ? (dg::Entity *)new Switch<bool, int>("sw") : (dg::Entity *)new Switch<MatrixHomogeneous, int>("sw");
  wd = new dg::SignalTimeDependent<double, int>(fd, dg::sotNOSIGNAL, "wd"); wV = new dg::SignalTimeDependent<Vec, int>(fV, dg::sotNOSIGNAL, "wV");
  wd->setDependencyType(dg::TimeDependency<int>::ALWAYS_READY); wV->setDependencyType(dg::TimeDependency<int>::ALWAYS_READY);
  TI = kind == 0 ? (dg::Entity *)new Timer<Vec>("ti") : new Timer<double>("ti"); }
static MatrixHomogeneous hom(int v) { MatrixHomogeneous m; m.setIdentity(); m.translation() << v, 2 * v, 3 * v; return m; }
template <class T> static void plugin(const std::string &name, const T &v) { dg::Signal<T, int> *s = new dg::Signal<T, int>("value"); s->setConstant(v); SW->getSignal(name).plug(s); s->setTime(::T + 1); s->setReady(); }
static void reset() { setup(0); }
static void op(const J &a, O &o) {
  if (a[0].s == "kind") { setup(a[1].s == "vector" ? 0 : a[1].s == "bool" || a[1].s == "double" ? 1 : 2); o.s("ok"); return; }
  std::string c = a[0].s; int x = a[1].i(); calls.clear(); ++T; wrong = 0;
  dg::SignalBase<int> &sout = SW->getSignal("sout");
  if (c == "cond") { if (x == NONE) V->getSignal("condition").unplug(); else { cond->setConstant(x == 1); V->getSignal("condition").plug(cond); } }
  else if (c == "repeat") call(*V, "repeat", {Val(x)});
  else if (c == "trig") call(*V, "addSignal", {Val("ent" + std::to_string(x) + ".s")});
  else if (c == "notrig") call(*V, "addSignal", {Val(std::string("ent1.nothing"))});
  else if (c == "bad") bad[x] = a[2].b();
  else if (c == "list") { std::string s = call(*V, "list").value(); std::vector<int> v; for (size_t p = s.find("Ent(ent"); p != std::string::npos; p = s.find("Ent(ent", p + 1)) v.push_back(atoi(s.c_str() + p + 7)); o.s("ok").is(v); return; }
  else if (c == "check") { try { bool r = sig<bool>(*V, "check").access(T); if (wrong) o.s("wrong time"); o.s("ok").b(r).is(calls); } catch (const std::range_error &) { o.s("exc").is(calls); } return; }
  else if (c == "latch") { std::string w = a[1].s; o.s("ok"); if (w == "turnOn" || w == "turnOff") { call(*L, w); o.b(sig<bool>(*L, "out").access(T)); } else o.b(sig<bool>(*L, w).access(T)); return; }
  else if (c == "number") { call(*SW, "setSignalNumber", {Val(x)}); sout.setReady(); }
  else if (c == "count") { int n = call(*SW, "getSignalNumber").value(); int k = 0; while (SW->hasSignal("sin" + std::to_string(k))) ++k; if (k != n) o.s("signals"); o.s("ok").i(n); return; }
  else if (c == "in") { std::string n = "sin" + std::to_string(x); if (kind == 0) { Vec v(2); v << a[2].n, -a[2].n; plugin<Vec>(n, v); } else if (kind == 1) plugin<bool>(n, a[2].i() == 2); else plugin<MatrixHomogeneous>(n, hom(a[2].i())); }
  else if (c == "sel") { if (x == NONE) { SW->getSignal("selection").unplug(); sout.setReady(); } else { SW->getSignal("selection").plug(sel); sel->setConstant(x); sel->setTime(T); } }
  else if (c == "bsel") { if (x == NONE) { SW->getSignal("boolSelection").unplug(); sout.setReady(); } else { SW->getSignal("boolSelection").plug(bsel); bsel->setConstant(x == 1); bsel->setTime(T); } }
  else if (c == "out") { try { int v;
      if (kind == 0) { const Vec &r = sig<Vec>(*SW, "sout").access(T); v = r(0); if (r.size() != 2 || r(1) != -v) v = -1000; }
      else if (kind == 1) v = sig<bool>(*SW, "sout").access(T) ? 2 : 1;
      else { const MatrixHomogeneous &r = sig<MatrixHomogeneous>(*SW, "sout").access(T); v = r.translation()(0); if (!r.matrix().isApprox(hom(v).matrix())) v = -1000; }
      o.s("ok").i(v); } catch (...) { sout.setReady(); throw; } return; }
  else if (c == "sign") { bin->setConstant(x); B->getSignal("sin").plug(bin); o.s("ok").i(sig<unsigned>(*B, "sout").access(T)); return; }
  else if (c == "clock") { sec = x; us = a[2].i(); }
  else if (c == "stamp") { if (a[1].s == "time") { const Vec &v = sig<Vec>(*TS, "time").access(T); if (v.size() != 2) o.s("size"); o.s("ok").r(v(0)).r(v(1)); }
    else if (a[1].s == "timeDouble") o.s("ok").r(sig<double>(*TS, "timeDouble").access(T), 1000, 1e-3);
    else { std::ostringstream os; TS->display(os); int s = -1, u = -1; sig<Vec>(*TS, "time").access(T); os.str(""); TS->display(os); sscanf(os.str().c_str(), "TimeStamp <> : %ds; %dus.", &s, &u); o.s("ok").i(s).i(u); } return; }
  else if (c == "work") { wv = x; wus = a[2].i(); wcpu = a[3].i(); if (kind == 0) TI->getSignal("sin").plug(wV); else TI->getSignal("sin").plug(wd); }
  else if (c == "timer" || c == "again") { std::string n = c == "again" ? "sout" : a[1].s; o.s("ok");
    for (int k = 0; k < (c == "again" ? 2 : 1); ++k) if (kind == 0) { const Vec &v = sig<Vec>(*TI, n).access(T); if (v.size() != 2 || v(1) != v(0) + 1) o.s("value"); o.r(v(0)); } else o.r(sig<double>(*TI, n).access(T)); return; }
  else if (c == "dt") { o.s("ok").r(sig<double>(*TI, "timer").access(T), 1000, 1e-3); return; }
  else { o.s("?"); return; }
  o.s("ok");
}
int main() { classifier() = excname; return run(reset, op); }
