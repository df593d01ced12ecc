// Traces, errors, file following and the causal filter: no dynamic-graph needed.
#define VP_DEBUG
#define VP_DEBUG_MODE 15
#define VP_TEMPLATE_DEBUG_MODE 8
#include "h.hh"
#include <sot/core/debug.hh>
#include <sot/core/abstract-sot-external-interface.hh>
#include <sot/core/causal-filter.hh>
#include <sot/core/contiifstream.hh>
#include <sot/core/exception-dynamic.hh>
#include <sot/core/exception-factory.hh>
#include <sot/core/exception-feature.hh>
#include <sot/core/exception-signal.hh>
#include <sot/core/exception-task.hh>
#include <sot/core/exception-tools.hh>
#include <memory>
#include <sys/stat.h>
using namespace vh; using namespace dynamicgraph::sot;
namespace dynamicgraph { namespace sot { namespace sot = ::dynamicgraph::sot; } }
static std::string dir; static std::ostringstream *OS; static DebugTrace *D; static Contiifstream *C; static std::unique_ptr<CausalFilter> F; static int FN; static double RATE;
static std::string fn(int k) { return k == 3 ? dir + "/nowhere/f3" : dir + "/f" + std::to_string(k); }
static std::string slurp(const std::string &f) { std::ifstream is(f, std::ios::binary); std::ostringstream os; os << is.rdbuf(); return os.str(); }
static bool there(const std::string &f) { struct stat s; return stat(f.c_str(), &s) == 0; }
static void reset() { unit();
  DebugTrace::closeFile(); for (int k = 1; k <= 2; ++k) { unlink(fn(k).c_str()); unlink((dir + "/c" + std::to_string(k)).c_str()); }
  delete D; delete OS; OS = new std::ostringstream; D = new DebugTrace(*OS); D->traceLevel = D->traceLevelTemplate = 0; sotDEBUGFLOW.traceLevel = 0; sotDEBUGFLOW.tmpbuffer.str("");
  delete C; C = new Contiifstream(dir + "/c1"); F.reset(); FN = 0; }
static std::string said() { std::string s = OS->str(); OS->str(""); return s; }
// the position prefix of a trace
static std::string nopre(std::string s) { std::string r; for (size_t p; (p = s.find(__FILE__ ": op(#")) != std::string::npos;) { size_t e = s.find(") :", p); r += s.substr(0, p) + "[pre]"; s = s.substr(e + 3); } return r + s; }
template <class E> static void show(const E &e0, O &o) {
  try { SOT_THROW E(e0); } catch (ExceptionAbstract &e) {
    std::ostringstream a, b; a << e; try { throw; } catch (const std::exception &x) { o.i(e.getCode()).s(e.getStringMessage()).s(e.getMessage()).s(x.what()).s(e.getExceptionName()); }
    E copy(e0); b << static_cast<const ExceptionAbstract &>(copy); o.s(a.str()).s(b.str()); } }
static void show(const ExceptionAbstract &e0, O &o, bool) { show<ExceptionAbstract>(e0, o); }
template <class E> struct Codes;
#define CODE(X, n) if (s == #n) return X::n;
template <> struct Codes<ExceptionSignal> { static ExceptionSignal::ErrorCodeEnum get(const std::string &s) { typedef ExceptionSignal X; CODE(X, READWRITE_LOCK) CODE(X, COPY_NOT_INITIALIZED) CODE(X, NOT_INITIALIZED) CODE(X, PLUG_IMPOSSIBLE) CODE(X, SET_IMPOSSIBLE) CODE(X, BAD_CAST) return X::GENERIC; } };
template <> struct Codes<ExceptionTask> { static ExceptionTask::ErrorCodeEnum get(const std::string &s) { typedef ExceptionTask X; CODE(X, EMPTY_LIST) CODE(X, NON_ADEQUATE_FEATURES) CODE(X, MATRIX_SIZE) CODE(X, BOUND_TYPE) CODE(X, PARSER_MULTI_BOUND) return X::GENERIC; } };
template <> struct Codes<ExceptionFeature> { static ExceptionFeature::ErrorCodeEnum get(const std::string &s) { typedef ExceptionFeature X; CODE(X, BAD_INIT) CODE(X, UNCOMPATIBLE_SIZE) return X::GENERIC; } };
template <> struct Codes<ExceptionFactory> { static ExceptionFactory::ErrorCodeEnum get(const std::string &s) { typedef ExceptionFactory X; CODE(X, UNREFERED_OBJECT) CODE(X, UNREFERED_SIGNAL) CODE(X, UNREFERED_FUNCTION) CODE(X, DYNAMIC_LOADING) CODE(X, SIGNAL_CONFLICT) CODE(X, FUNCTION_CONFLICT) CODE(X, OBJECT_CONFLICT) CODE(X, SYNTAX_ERROR) CODE(X, READ_FILE) return X::GENERIC; } };
template <> struct Codes<ExceptionDynamic> { static ExceptionDynamic::ErrorCodeEnum get(const std::string &s) { typedef ExceptionDynamic X; CODE(X, CANT_DESTROY_SIGNAL) CODE(X, JOINT_RANK) CODE(X, DYNAMIC_JRL) CODE(X, JOINT_SIZE) CODE(X, INTEGRATION) return X::GENERIC; } };
template <> struct Codes<ExceptionTools> { static ExceptionTools::ErrorCodeEnum get(const std::string &s) { typedef ExceptionTools X; CODE(X, CORBA) CODE(X, KALMAN_SIZE) CODE(X, PARAMETER_SERVER) return X::GENERIC; } };
template <class E> static void exc(const J &a, O &o) {
  std::string c = a[0].s; auto code = Codes<E>::get(a[2].s);
  if (c == "exc") { if (a[3].s.empty()) show(E(code), o); else show(E(code, a[3].s), o); }
  else if (c == "excf") { std::string s = a[5].s; int n = a[6].i(); std::string m = a[3].s;
    switch (a[4].i()) { case 1: show(E(code, m, "%d", n), o); break; case 2: show(E(code, m, "%s", s.c_str()), o); break; case 3: show(E(code, m, "(%s,%d)", s.c_str(), n), o); break;
      case 4: show(E(code, m, "100%%"), o); break; default: show(E(code, m, "%s%s", s.c_str(), s.c_str()), o); } }
  else { E e(code, std::string(a[3].i(), 'm'), "%s", std::string(a[4].i(), 'x').c_str()); o.i(e.getCode()).i(e.getStringMessage().size()); } }
static Eigen::VectorXd vec(const J &j) { Eigen::VectorXd v(j.size()); for (size_t i = 0; i < j.size(); ++i) v(i) = j[i].n; return v; }
static void op(const J &a, O &o) {
  std::string c = a[0].s, s1 = a[1].s, s2 = a[2].s; int i = a[1].i();
  if (c == "level") { D->traceLevel = i; o.s("ok"); }
  else if (c == "tlevel") { D->traceLevelTemplate = i; o.s("ok"); }
  else if (c == "pre") { D->pre(D->tmpbuffer << "", i); o.s("ok"); }
  else if (c == "pre0") { D->pre(D->tmpbuffer << ""); o.s("ok"); }
  else if (c == "tmp") { D->tmpbuffer << s1; o.s("ok"); }
  else if (c == "trace") { D->trace(i, "<%s|%d>", s2.c_str(), a[3].i()); o.s(said()); }
  else if (c == "trace0") { D->trace("<%s|%d>", s1.c_str(), a[2].i()); o.s(said()); }
  else if (c == "flush") { D->trace(i); o.s(said()); }
  else if (c == "flush0") { D->trace(); o.s(said()); }
  else if (c == "ttrace") { D->traceTemplate(i, "<%s|%d>", s2.c_str(), a[3].i()); o.s(said()); }
  else if (c == "ttrace0") { D->traceTemplate("<%s|%d>", s1.c_str(), a[2].i()); o.s(said()); }
  else if (c == "long") { D->tmpbuffer.str(""); D->trace("%s", std::string(i, 'x').c_str()); std::string s = said(); bool ok = s.size() && s[s.size() - 1] == '\n' && s.find_first_not_of('x') == s.size() - 1; o.i(ok ? (long)s.size() - 1 : -1); }
  else if (c == "open") { DebugTrace::openFile(fn(i).c_str()); o.s("ok"); }
  else if (c == "fail") { sotDEBUGFLOW.outputbuffer.flush(); sotDEBUGFLOW.outputbuffer.setstate(std::ios::badbit); o.s("ok"); }
  else if (c == "close") { DebugTrace::closeFile(fn(1).c_str()); o.s("ok"); }
  else if (c == "good") o.b(sotDEBUGFLOW.outputbuffer.good() && sotERRORFLOW.outputbuffer.good());
  else if (c == "read") { sotDEBUGFLOW.outputbuffer.flush(); if (!there(fn(i))) o.s("none"); else o.s("text").s(nopre(slurp(fn(i)))); }
  else if (c == "raw") { sotDEBUGFLOW.outputbuffer << s1; o.s("ok"); }
  else if (c == "debug") { sotDEBUG(i) << s2 << std::endl; o.s("ok"); }
  else if (c == "mute") { sotDEBUGMUTE(i) << s2 << std::endl; o.s("ok"); }
  else if (c == "tdebug") { sotTDEBUG(i) << s2 << std::endl; o.s("ok"); }
  else if (c == "error") { sotERROR << s1 << std::endl; o.s("ok"); }
  else if (c == "in") { sotDEBUGIN(i); sotDEBUGOUT(i); sotDEBUGINOUT(i); o.s("ok"); }
  else if (c == "tin") { sotTDEBUGIN(i); sotTDEBUGOUT(i); sotTDEBUGINOUT(i); o.s("ok"); }
  else if (c == "debugf") { sotDEBUGF(i, "<%s|%d>", s2.c_str(), i); o.s("ok"); }
  else if (c == "tdebugf") { sotTDEBUGF(i, "<%s|%d>", s2.c_str(), i); o.s("ok"); }
  else if (c == "errorf") { using namespace dynamicgraph; sotERRORF("<%s|%d>", s1.c_str(), 0); o.s("ok"); }
  else if (c == "enable") o.b(sotDEBUG_ENABLE(i)).b(sotTDEBUG_ENABLE(i));
  else if (c == "exc" || c == "excf" || c == "exclong") {
    if (s1 == "Abstract") show(ExceptionAbstract(ExceptionAbstract::ABSTRACT, a[3].s), o);
    else if (s1 == "Signal") exc<ExceptionSignal>(a, o); else if (s1 == "Task") exc<ExceptionTask>(a, o); else if (s1 == "Feature") exc<ExceptionFeature>(a, o);
    else if (s1 == "Factory") exc<ExceptionFactory>(a, o); else if (s1 == "Dynamic") exc<ExceptionDynamic>(a, o); else exc<ExceptionTools>(a, o); }
  else if (c == "named") { NamedVector v; v.setName("x"); v.setValues(std::vector<double>(3, 1.)); v.setName(s1); std::vector<double> w; for (size_t k = 0; k < a[2].size(); ++k) w.push_back(a[2][k].n); v.setValues(w); NamedVector u(v); v.setName("other");
    o.s(u.getName()); std::vector<int> r; for (double d : u.getValues()) r.push_back((int)d); o.is(r); }
  // following a file
  else if (c == "tappend" || c == "twrite") { std::ofstream os(dir + "/c" + std::to_string(i), std::ios::binary | (c == "tappend" ? std::ios::app : std::ios::trunc)); for (size_t k = 0; k < a[2].size(); ++k) os << a[2][k].s; o.s("ok"); }
  else if (c == "tdelete") { unlink((dir + "/c" + std::to_string(i)).c_str()); o.s("ok"); }
  else if (c == "topen") { C->open(dir + "/c" + std::to_string(i)); o.s("ok"); }
  else if (c == "tloop") o.b(C->loop());
  else if (c == "tready") o.b(C->ready());
  else if (c == "tnext") o.s(C->next());
  // filtering
  else if (c == "finit") { FN = i; RATE = a[2].n; F.reset(new CausalFilter(units()[1] / RATE, FN, vec(a[3]), vec(a[4]))); o.s("ok"); }
  else if (c == "funit") { unit(a[1].i(), a[2].i()); o.s("ok"); }
  else if (c == "fswitch") { F->switch_filter(vec(a[1]), vec(a[2])); o.s("ok"); }
  else if (c == "fx") { Eigen::VectorXd r(3 * FN), x = vec(a[1]) * units()[0]; const Eigen::VectorXd x0 = x; double u = 4096 / units()[0], w = units()[1]; F->get_x_dx_ddx(x, r); o.v(Eigen::VectorXd(r.head(FN)), u).v(Eigen::VectorXd(r.segment(FN, FN)), u * w).v(Eigen::VectorXd(r.tail(FN)), u * w * w).b(r.size() == 3 * FN && x == x0); }
  else o.s("?");
}
// component prefix: the operations of several specifications share this program
int main(int argc, char **argv) {
  std::string pre = argc > 1 ? argv[1] : "";
  char tmpl[] = "/tmp/vcoreXXXXXX"; dir = mkdtemp(tmpl);
  reset();
  int r = run(reset, [&](const J &a, O &o) { J b = a; b.a[0].s = pre + a[0].s; op(b, o); });
  reset(); rmdir(dir.c_str());
  return r;
}
