#include "ent.hh"
#include <sot/core/filter-differentiator.hh>
#include <cstring>
#include <new>
using namespace vh; namespace S = dynamicgraph::sot;
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x5A, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
static S::FilterDifferentiator *e; static int t; static bool done, plugged; static Vec in;
static void reset() { wipe(); unit(); void *p = calloc(1, 1); free(p); e = new S::FilterDifferentiator("fd"); t = 0; done = plugged = false; }
static void show(const J &w, O &o) { std::string r = "["; for (size_t i = 0; i < w.size(); ++i) { const Vec &v = sig<Vec>(*e, w[i].s)(t); r += (i ? "," : "") + O::vs(v, 4096 / units()[0] * (w[i].s == "dx" ? units()[1] : w[i].s == "ddx" ? units()[1] * units()[1] : 1)); } o.s("ok").raw(r + "]"); }
static void op(const J &a, O &o) {
  std::string c = a[0].s;
  if (c == "init") { call(*e, "init", {Val(units()[1] / a[2].n), Val(a[1].i()), Val(vec(a[3])), Val(vec(a[4]))}); e->m_xSIN.unplug(); done = plugged = false; o.s("ok"); }
  else if (c == "unit") { unit(a[1].i(), a[2].i()); o.s("ok"); }
  else if (c == "switch") { call(*e, "switch_filter", {Val(vec(a[1])), Val(vec(a[2]))}); o.s("ok"); }
  else if (c == "x") { in = vec(a[1]) * units()[0]; plugged = true; o.s("ok"); }
  else if (c == "eval") { ++t; if (plugged) e->m_xSIN = in; if (odd(t)) poll(*e, t); /* a new value in each period */ show(a[1], o); done = true; }
  else if (c == "again") { if (!done) o.s("none"); else show(a[1], o); }
  else if (c == "get") { int n = call(*e, "getSize").value(); double d = call(*e, "getTimestep").value(); o.s("ok").i(n).r(d ? units()[1] / d : 0); }
  else o.s("unknown");
}
int main() { classifier() = [](O &o) { bool r = excname(o); ++t; e->m_x_dx_ddxSINNER.setReady(); for (const char *n : {"x_filtered", "dx", "ddx"}) e->getSignal(n).setReady(); return r; }; int r = run(reset, op); unlink("/tmp/fd_log.dat"); return r; }
