// Generic features with references.
#include "ent.hh"
#include <sot/core/feature-1d.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/flags.hh>
using namespace vh; using namespace dynamicgraph::sot;
static std::vector<FeatureGeneric *> F; static Feature1D *other; static int T;
struct In { bool e, j, d; Vec err, dot; Mat jac; Flags sel; }; static std::vector<In> in;
static std::string nm(int i) { return "f" + std::to_string(i); }
static void touch() {  // structural changes: everything is new
  for (size_t i = 1; i < F.size(); ++i) { F[i]->errorSOUT.setReady(); F[i]->errordotSOUT.setReady(); F[i]->jacobianSOUT.setReady(); F[i]->dimensionSOUT.setReady(); } }
static void polling() { for (size_t i = 1; i < F.size(); ++i) poll(*F[i], T); }
static double U() { return units()[0]; }
static void reset() { wipe(); unit(); T = 1; F.assign(1, nullptr); for (int i = 1; i <= 3; ++i) F.push_back(new FeatureGeneric(nm(i))); other = new Feature1D("other"); }
static void op(const J &a, O &o) {
  std::string c = a[0].s; int i = a[1].i(); if (c == "unit") { unit(i); o.s("ok"); return; }
  FeatureGeneric &f = *F[i];
  try {
    if (c == "err") { put<Vec>(f, "errorIN", Vec(vec(a[2]) * U()), T % 3 == 0); ++T; o.s("ok"); }
    else if (c == "jac") { put<Mat>(f, "jacobianIN", Mat(mat(a[2]) * U()), T % 3 == 0); ++T; o.s("ok"); }
    else if (c == "dot") { put<Vec>(f, "errordotIN", Vec(vec(a[2]) * U()), T % 3 == 0); ++T; o.s("ok"); }
    else if (c == "undot") { f.errordotSIN.unplug(); ++T; touch(); o.s("ok"); }
    else if (c == "sel") { std::vector<bool> b; for (size_t k = 0; k < a[2].size(); ++k) b.push_back(a[2][k].b()); Flags g(b); if (a[3].b()) { for (size_t k = 0; k < b.size(); ++k) b[k] = !b[k]; g = !Flags(b); } f.selectionSIN = g; ++T; o.s("ok"); }
    else if (c == "ref") { int j = a[2].i(); if (j == 0) ((FeatureAbstract &)f).unsetReference(); else f.setReference(j == 9 ? (FeatureAbstract *)other : (FeatureAbstract *)F[j]); ++T; o.s("ok"); }
    else if (c == "refname") { int j = a[2].i(); call(f, "setReference", {Val(j ? nm(j) : std::string("nobody"))}); ++T; o.s("ok"); }
    else if (c == "getref") { std::string s = call(f, "getReference").value(); o.s(s); }
    else if (c == "graph") { std::ostringstream s, e; f.writeGraph(s); f.Entity::writeGraph(e); std::string x = s.str(), y = e.str(); o.s(x.compare(0, y.size(), y) ? "?" + x : x.substr(y.size())); }
    else if (odd(T) && (c == "error" || c == "errordot" || c == "jacobian" || c == "dim") && (polling(), false)) ;
    else if (c == "error") { const Vec &v = sig<Vec>(f, "error").access(T); o.s("ok").v(v, 1 / U()); }
    else if (c == "errordot") { const Vec &v = sig<Vec>(f, "errordot").access(T); o.s("ok").v(v, 1 / U()); }
    else if (c == "jacobian") { const Mat &v = sig<Mat>(f, "jacobian").access(T); o.s("ok").m(v, 1 / U()); }
    else if (c == "dim") { unsigned n = sig<unsigned>(f, "dim").access(T); o.s("ok").i(n); }
    else o.s("?");
  } catch (...) { ++T; touch(); throw; }
}
int main() { classifier() = excname; return run(reset, op); }
