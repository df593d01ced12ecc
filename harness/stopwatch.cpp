// The stopwatch, under clocks that only move when the specification says so.
#include "h.hh"
#include <sot/core/stop-watch.hh>
#include <sys/time.h>
#include <time.h>
using namespace vh;
static long REAL, CPU;
extern "C" {
int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = REAL / 1000000; tv->tv_usec = REAL % 1000000; return 0; }
clock_t clock() throw() { return CPU; }
time_t time(time_t *t) throw() { time_t v = REAL / 1000000; if (t) *t = v; return v; }
int clock_gettime(clockid_t id, struct timespec *ts) throw() { long v = (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ? CPU : REAL; ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000; return 0; }
}
static Stopwatch *W; static bool ON;
static const double U = 1e6, TOL = 1e-2;
static std::string name(const std::string &n) { return n == "L" ? std::string(90, 'L') : n; }
static std::string unname(const std::string &n) { return n == std::string(90, 'L') ? "L" : n; }
static void reset() { REAL = 1000000000; CPU = 500000000; delete W; W = new Stopwatch(); ON = true; }
// one record of a report: name, padding, five numbers separated by tabulations, total on its own line
static std::string record(std::istream &is, int prec) {
  std::string l1, l2, rest; if (!std::getline(is, l1) || !std::getline(is, l2)) return "\"?short\"";
  size_t sp = l1.find_first_of(" 0123456789-", l1[0] == 'L' ? 90 : 1);
  std::string n = l1.substr(0, sp); size_t e = l1.find_first_not_of(' ', sp); size_t want = std::max<size_t>(80, n.size());
  if (e != want) return "\"?padding\"";
  std::vector<std::string> f; std::string cur; for (char c : l1.substr(e)) { if (c == '\t') { f.push_back(cur); cur = ""; } else cur += c; } f.push_back(cur);
  if (f.size() != 5) return "\"?fields\"";
  f.insert(f.begin() + 4, l2);   // min avg max last total stops
  for (size_t k = 0; k < 5; ++k) if (f[k].find("nan") == std::string::npos && f[k].find("inf") == std::string::npos) { size_t d = f[k].find('.'); size_t dec = d == std::string::npos ? 0 : f[k].size() - d - 1; if ((int)dec != prec) return "\"?precision\""; }
  double st = atof(f[5].c_str()); O o; o.s(unname(n)); double tol = 1000 * pow(10, -prec) * .51 + 1e-3;
  auto num = [&](const std::string &x, double k) { double v = atof(x.c_str()) * 1e3 * k; if (std::isnan(v)) o.s("nan"); else if (std::isinf(v)) o.s("inf"); else o.r(v, 1, tol * k); };
  num(f[0], 1);
  if (st == 0) num(f[1], 1); else num(f[1], st);
  num(f[2], 1); num(f[3], 1); o.i((long)st); num(f[4], 1);
  return "[" + o.t + "]"; }
static void op(const J &a, O &o) {
  std::string c = a[0].s;
  try {
    if (c == "adv") { REAL += a[1].i(); CPU += a[2].i(); o.s("ok"); }
    else if (c == "mode") { W->set_mode(a[1].s == "cpu" ? CPU_TIME : a[1].s == "real" ? REAL_TIME : NONE); o.s("ok"); }
    else if (c == "on") { W->turn_on(); ON = true; o.s("ok"); }
    else if (c == "off") { W->turn_off(); ON = false; o.s("ok"); }
    else if (c == "exists") o.b(W->performance_exists(name(a[1].s)));
    else if (c == "take") { long double v = W->take_time(); o.r((double)(v * (v > 4000 ? 1.0L : 1e6L)), 1, TOL); }
    else if (c == "start") { W->start(name(a[1].s)); o.s("ok"); }
    else if (c == "stop") { W->stop(name(a[1].s)); o.s("ok"); }
    else if (c == "pause") { W->pause(name(a[1].s)); o.s("ok"); }
    else if (c == "reset") { W->reset(name(a[1].s)); o.s("ok"); }
    else if (c == "resetall") { W->reset_all(); o.s("ok"); }
    else if (c == "get") { std::string n = name(a[2].s), w = a[1].s; long double v;
      if (w == "total") v = W->get_total_time(n); else if (w == "min") v = W->get_min_time(n); else if (w == "max") v = W->get_max_time(n); else if (w == "last") v = W->get_last_time(n); else if (w == "sofar") v = W->get_time_so_far(n);
      else { v = W->get_average_time(n); std::ostringstream os; W->turn_on(); W->report(n, 6, os); if (!ON) W->turn_off(); std::string s = os.str(); size_t p = s.rfind('\t'); double st = atof(s.c_str() + p + 1); if (st > 0) v *= st; }
      o.r((double)v, U, TOL); }
    else if (c == "report") { std::ostringstream os; W->report(name(a[1].s), 4, os); std::istringstream is(os.str()); if (os.str().size()) o.raw(record(is, 4)); std::string x; if (std::getline(is, x)) o.s("?more"); }
    else if (c == "reportall") { std::ostringstream os; W->report_all(5, os); std::istringstream is(os.str()); std::string x; if (os.str().size()) { std::getline(is, x); if (x != "") o.s("?blank"); std::getline(is, x);
        o.s(x == "*** PROFILING RESULTS [ms] (min - avg - max - lastTime - nSamples - totalTime) ***" ? "header" : "?header"); while (is.peek() != EOF) o.raw(record(is, 5)); } }
    else if (c == "profiler") { bool same = &getProfiler() == &getProfiler(); o.b(same).r((double)getProfiler().take_time(), U, TOL); }
    else o.s("?");
  } catch (const StopwatchException &e) { o = O(); o.s("exc").s(e.error); }
}
int main() { return run(reset, op); }
