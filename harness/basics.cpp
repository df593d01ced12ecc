// Flags and bounds.
#include "ent.hh"
#include <sot/core/flags.hh>
#include <sot/core/multi-bound.hh>
using namespace vh; using namespace dynamicgraph::sot;
static std::vector<Flags> F; static MultiBound M; static VectorMultiBound V;
static void reset() { F.assign(3, Flags()); M = MultiBound(); V.clear(); }
static std::string cat(const J &a) { std::string s; for (size_t i = 0; i < a.size(); ++i) s += a[i].s; return s; }
static void show(O &o, const Flags &f) { std::ostringstream os; os << f; std::string g; for (int i = 0; i < 8; ++i) g += f(i) ? '1' : '0'; o.s(os.str()).s(g).b(f ? true : false); }
static void mb(O &o, const MultiBound &m) { std::ostringstream os; os << m; o.s(os.str());
  try { double x = m.getSingleBound(); o.s("single").r(x, 2); } catch (const ExceptionTask &e) { o.s("none"); }
  for (int k = 0; k < 2; ++k) { MultiBound::SupInfType t = k ? MultiBound::BOUND_SUP : MultiBound::BOUND_INF;
    try { o.b(m.getDoubleBoundSetup(t)); } catch (const ExceptionTask &e) { ExceptionAbstract a(e); o.i(a.getCode()); }
    try { o.r(m.getDoubleBound(t), 2); } catch (const ExceptionTask &e) { ExceptionAbstract a(e); o.s("exc").i(a.getCode()); } }
  o.s(m.getMode() == MultiBound::MODE_SINGLE ? "S" : "D"); }
static void op(const J &a, O &o) {
  std::string c = a[0].s; int i = a[1].i();
  if (c == "fbool") { F[i] = Flags(a[2].b()); show(o, F[i]); }
  else if (c == "fstr") { F[i] = Flags(cat(a[2]).c_str()); show(o, F[i]); }
  else if (c == "fvec") { std::vector<bool> v; for (size_t k = 0; k < a[2].size(); ++k) v.push_back(a[2][k].b()); F[i] = Flags(v); show(o, F[i]); }
  else if (c == "fadd") { F[i].add(a[2].b()); show(o, F[i]); }
  else if (c == "fset") { F[i].set(a[2].i()); show(o, F[i]); }
  else if (c == "funset") { F[i].unset(a[2].i()); show(o, F[i]); }
  else if (c == "fnot") { F[a[2].i()] = !F[i]; show(o, F[a[2].i()]); }
  else if (c == "fand") { F[a[3].i()] = F[i] & F[a[2].i()]; show(o, F[a[3].i()]); }
  else if (c == "for") { F[a[3].i()] = F[i] | F[a[2].i()]; show(o, F[a[3].i()]); }
  else if (c == "fandeq") { Flags &r = (F[i] &= F[a[2].i()]); show(o, r); }
  else if (c == "foreq") { Flags &r = (F[i] |= F[a[2].i()]); show(o, r); }
  else if (c == "fcopy") { F[a[2].i()] = F[i]; show(o, F[a[2].i()]); }
  else if (c == "fget") o.b(F[i](a[2].i()));
  else if (c == "fread") { Flags t; std::istringstream is(cat(a[2])); is >> t; F[i] = t; show(o, F[i]); }
  else if (c == "fecho") { std::ostringstream os; os << F[i]; std::istringstream is(os.str()); Flags t; is >> t; F[i] = t; show(o, F[i]); }
  else if (c == "mnew") { M = MultiBound(a[1].n / 2); mb(o, M); }
  else if (c == "mnew2") { M = MultiBound(a[1].n / 2, a[2].n / 2); mb(o, M); }
  else if (c == "mnewb") { M = MultiBound(a[1].n / 2, a[2].s == "sup" ? MultiBound::BOUND_SUP : MultiBound::BOUND_INF); mb(o, M); }
  else if (c == "mset") { M.setDoubleBound(a[1].s == "sup" ? MultiBound::BOUND_SUP : MultiBound::BOUND_INF, a[2].n / 2); mb(o, M); }
  else if (c == "munset") { M.unsetDoubleBound(a[1].s == "sup" ? MultiBound::BOUND_SUP : MultiBound::BOUND_INF); mb(o, M); }
  else if (c == "msingle") { M.setSingleBound(a[1].n / 2); mb(o, M); }
  else if (c == "mcopy") { MultiBound c2(M); M = MultiBound(77, 78); M = c2; mb(o, M); }
  else if (c == "mread") { std::istringstream is(cat(a[1])); MultiBound t(M); bool bad = false; try { is >> t; } catch (const ExceptionAbstract &e) { bad = true; }
    if (bad || is.fail()) o.s("rejected"); else { M = t; mb(o, M); std::string rest; std::getline(is, rest); o.s(rest); } }
  else if (c == "mecho") { std::ostringstream os; os << M; std::istringstream is(os.str()); MultiBound t(9, 11); is >> t; M = t; mb(o, M); }
  else if (c == "vpush") { V.push_back(M); std::ostringstream os; os << V; o.s(os.str()); }
  else if (c == "vclear") { V.clear(); std::ostringstream os; os << V; o.s(os.str()); }
  else if (c == "vget") { MultiBound &m = V.at(i - 1); M = m; mb(o, M); }
  else if (c == "vecho") { std::ostringstream os; os << V << ";" << V; std::istringstream is(os.str()); VectorMultiBound w(3), x; is >> w; char sep = 0; is.get(sep); is >> x; std::ostringstream o2; o2 << w << sep << x; V = x; o.s(o2.str()); }
  else if (c == "vread") { std::istringstream is(cat(a[1])); VectorMultiBound w(1); bool bad = false; try { is >> w; } catch (const ExceptionAbstract &e) { bad = true; }
    if (bad || is.fail()) o.s("rejected"); else { V = w; std::ostringstream os; os << V; o.s(os.str()); } }
  else o.s("?");
}
int main() { classifier() = excname; return run(reset, op); }
