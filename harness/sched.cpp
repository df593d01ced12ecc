// Periodic calls and sequencer.
#include "ent.hh"
#include <sot/core/periodic-call-entity.hh>
#include <sot/core/sequencer.hh>
#include <sot/core/sot.hh>
#include <sot/core/debug.hh>
using namespace vh; using namespace dynamicgraph::sot;
struct Ent : dg::Entity { DYNAMIC_GRAPH_ENTITY_DECL(); int id; dg::SignalTimeDependent<int, int> s;
  Ent(const std::string &n, int i) : Entity(n), id(i), s(boost::bind(&Ent::f, this, _1, _2), dg::sotNOSIGNAL, "Ent(" + n + ")::output(int)::s") {
    s.setDependencyType(dg::TimeDependency<int>::ALWAYS_READY); signalRegistration(s); }
  int &f(int &r, int t); };
const std::string Ent::CLASS_NAME = "Ent";
static std::vector<int> calls, when; static bool bad[8];
int &Ent::f(int &r, int t) { calls.push_back(id); when.push_back(t); if (bad[id]) throw std::runtime_error("bad signal"); return r = t; }
static Ent *E[4]; struct Per : PeriodicCallEntity { Per(const std::string &n) : PeriodicCallEntity(n) {} using PeriodicCall::addSignal; using PeriodicCall::addDownsampledSignal; using PeriodicCall::rmSignal; using PeriodicCall::clear; using PeriodicCall::run; void show(std::ostream &os) const { PeriodicCall::display(os); } };
static Per *P;
static const char *names[] = {"", "a", "b", "ent1.s", "ent2.s", "z"};
struct Seq : Sequencer { Seq() : Sequencer("seq") {} void play(bool b) { playMode = b; } };
static Seq *S; static Sot *sots[2]; static std::vector<int> run_, live; static Sot *given; static int deleted;
struct Ev : Sequencer::sotEventAbstract { int n; bool fail; Ev(int t, int n_, bool f) : sotEventAbstract("e" + std::to_string(n_)), n(n_), fail(f) { eventType = t; }
  ~Ev() { ++deleted; }
  void operator()(Sot *p) { run_.push_back(n); given = p; if (fail) throw std::runtime_error("bad event"); } };
static int ty(const std::string &s) { return s == "add" ? Sequencer::sotEventAbstract::EVENT_ADD : Sequencer::sotEventAbstract::EVENT_RM; }
static dg::SignalTimeDependent<int, int> *tick;
static int &same(int &r, int t) { return r = t; }
static void reset() {
  wipe(); for (int i = 1; i < 4; ++i) { E[i] = new Ent("ent" + std::to_string(i), i); bad[i] = false; }
  P = new Per("per"); S = new Seq; S->setSotRef(0); sots[0] = 0; sots[1] = new Sot("sot");
  tick = new dg::SignalTimeDependent<int, int>(same, dg::sotNOSIGNAL, "tick"); tick->setDependencyType(dg::TimeDependency<int>::ALWAYS_READY); S->triggerSOUT.addDependency(*tick); }
static void op(const J &a, O &o) {
  std::string c = a[0].s; int x = a[1].i(); calls.clear(); when.clear(); run_.clear();
  auto P_ = [&](std::function<void()> f) { bool ok = true; try { f(); } catch (const std::runtime_error &) { ok = false; } for (int w : when) if (w != x) o.s("wrong time"); o.s(ok ? "ok" : "exc").is(calls).i(x); };
  if (c == "add") P->addSignal(names[x], E[a[2].i()]->s);
  else if (c == "path") P->addSignal(names[x + 2]);
  else if (c == "down") P->addDownsampledSignal(names[x], E[a[2].i()]->s, a[3].i());
  else if (c == "downpath") P->addDownsampledSignal(names[x + 2], a[2].i());
  else if (c == "wrong") P->addSignal(a[1].s == "a" ? "nobody.s" : "ent1.nothing");
  else if (c == "rm") P->rmSignal(names[x]);
  else if (c == "clear") P->clear();
  else if (c == "bad") bad[x] = a[2].b();
  else if (c == "run") { P_([&] { P->run(x); }); return; }
  else if (c == "trigger") { P_([&] { sig<int>(*P, "triger").access(x); }); return; }
  else if (c == "once") { P_([&] { sig<int>(*P, "trigerOnce").access(x); }); return; }
  else if (c == "names") { std::ostringstream os; P->show(os); std::istringstream is(os.str()); std::string l; std::vector<int> v; while (std::getline(is, l)) if (l.compare(0, 3, " - ") == 0) { int k = -1; for (int i = 1; i < 6; ++i) if (l.substr(3) == names[i]) k = i; v.push_back(k); } o.s("ok").is(v); return; }
  else if (c == "ev") { S->addTask(new Ev(ty(a[2].s), a[3].i(), a[4].b()), x); }
  else if (c == "rmev") S->rmTask(ty(a[2].s), "e" + std::to_string(a[3].i()), x);
  else if (c == "forget") { deleted = 0; S->clearAll(); o.s("ok").i(deleted); return; }
  else if (c == "play") S->play(a[1].b());
  else if (c == "sot") S->setSotRef(sots[x]);
  else if (c == "go" || c == "step") { bool ok = true; given = (Sot *)&given; int d = 0; static Sot *none = (Sot *)&given;
    try { if (c == "go") S->trigger(d, x); else S->triggerSOUT.recompute(x); } catch (const std::runtime_error &) { ok = false; S->triggerSOUT.setReady(); }
    o.s(ok ? "ok" : "exc").is(run_).i(given == none || !given ? 0 : given == sots[1] ? 1 : -1); return; }
  else if (c == "show") { std::ostringstream os; S->display(os); int t0 = -99; char mode[32] = ""; std::string s = os.str(); sscanf(s.c_str(), "Sequencer seq(t0=%d,mode=%31[a-z])", &t0, mode);
    std::istringstream is(s); std::string l; std::getline(is, l); std::string r = "["; bool f = true;
    while (std::getline(is, l)) { int k = -1; sscanf(l.c_str(), " - t=%d:", &k); if (!f) r += ","; f = false; r += "[" + std::to_string(k) + ",["; std::istringstream w(l.substr(l.find('\t') + 1)); std::string e; bool g = true; while (w >> e) { if (!g) r += ","; g = false; r += e.substr(1); } r += "]]"; }
    o.s("ok").i(t0).b(std::string(mode) == "play").raw(r + "]"); return; }
  else { o.s("?"); return; }
  o.s("ok");
}
int main() { classifier() = excname; return run(reset, op); }
