// -DFIR: finite impulse response and derivative; otherwise the integrator
#include "ent.hh"
#include <functional>
#include <sot/core/matrix-geometry.hh>
using namespace vh; namespace S = dynamicgraph::sot;
static const double SC = 256;
static std::string kind; static dg::Entity *fir, *der, *in; static int t; static std::function<void()> feed;
static int order;            // of the outputs, in units of time
static double scale(double sc, int k) { return sc / units()[0] / std::pow(units()[1], k); }
static void fresh() {
  wipe(); t = 0; feed = [] {}; fir = der = in = nullptr; dg::FactoryStorage *f = dg::FactoryStorage::getInstance();
#ifdef FIR
  if (kind != "matrix" && kind != "quat") fir = f->newEntity(kind == "double" ? "FIRFilter_double_double" : kind == "mat" ? "FIRFilter_Vector_Matrix" : "FIRFilter_Vector_double", "f");
  der = f->newEntity(kind == "double" ? "Derivator_of_double" : kind == "matrix" ? "Derivator_of_Matrix" : kind == "quat" ? "Derivator_of_VectorQuaternion" : "Derivator_of_Vector", "d");
#else
  in = f->newEntity(kind == "double" ? "IntegratorEulerDoubleDouble" : kind == "mat" ? "IntegratorEulerVectorMatrix" : "IntegratorEulerVectorDouble", "i");
#endif
}
static void reset() { unit(); order = 0; kind = "vec"; fresh(); }
template <class T> static void give(dg::Entity *e, const T &v) { if (!e) return; dg::SignalPtr<T, int> &s = dynamic_cast<dg::SignalPtr<T, int> &>(e->getSignal("sin")); s = v; s.getPtr(); }
static Val coef(const J &c, int k = 0) { double w = std::pow(units()[1], k); return kind == "mat" ? Val(Mat(mat(c) * w)) : Val(c.n * w); }
template <class T> static std::string out(dg::Entity *e, const char *n, double sc, int at) {
  dg::Signal<T, int> &s = sig<T>(*e, n);
  const T &v = s(at); if constexpr (std::is_same<T, double>::value) return "[" + O::rs(v, sc, 1e-8) + "]"; else if constexpr (std::is_same<T, S::VectorQuaternion>::value) { Vec c(4); c << v.w(), v.x(), v.y(), v.z(); return O::vs(c, sc, 1e-8); } else if constexpr (std::is_same<T, Mat>::value) { Vec c(4); c << v(0, 0), v(0, 1), v(1, 0), v(1, 1); return v.size() == 4 ? O::vs(c, sc, 1e-8) : "\"size\""; } else return O::vs(v, sc, 1e-8); }
static std::string eval(dg::Entity *e, const char *n, double sc, int at) { return kind == "double" ? out<double>(e, n, sc, at) : kind == "quat" ? out<S::VectorQuaternion>(e, n, sc, at) : kind == "matrix" ? out<Mat>(e, n, sc, at) : out<Vec>(e, n, sc, at); }
static std::string list(const std::string &l) {       // coefficients as displayed: numbers separated by " + ", and by s^i
  std::string r = "[", x = l; size_t p = 0; int k = 0;
  while (p != std::string::npos) { size_t q = x.find(" + ", p); std::string w = x.substr(p, q == std::string::npos ? q : q - p); size_t s = w.find(" s^"); if (s != std::string::npos) { if (atoi(w.c_str() + s + 3) != k) r += "?"; w = w.substr(0, s); } r += (k ? "," : "") + O::rs(atof(w.c_str())); ++k; p = q == std::string::npos ? q : q + 3; }
  return r + "]"; }
static void seen() { if (odd(t)) for (dg::Entity *e : {fir, der, in}) if (e) poll(*e, t); }
static void op(const J &a, O &o) {
  std::string c = a[0].s;
  if (c == "kind") { kind = a[1].s; fresh(); o.s("ok"); }
  else if (c == "x") {
    Vec v = vec(a[1]) * units()[0]; feed = [v] {
    for (dg::Entity *e : {fir, der, in}) { if (kind == "double") give<double>(e, v(0)); else if (kind == "quat") give<S::VectorQuaternion>(e, S::VectorQuaternion(v(0), v(1), v(2), v(3))); else if (kind == "matrix") { Mat m(2, 2); m << v(0), v(1), v(2), v(3); give<Mat>(e, m); } else give<Vec>(e, v); } };
    feed(); o.s("ok"); }
  else if (c == "size") { call(*fir, "setSize", {Val((unsigned)a[1].i())}); o.s("ok"); }
  else if (c == "getsize") { unsigned n = call(*fir, "getSize").value(); o.s("ok").i(n); }
  else if (c == "set") { call(*fir, "setElement", {Val((unsigned)a[1].i()), coef(a[2])}); o.s("ok"); }
  else if (c == "getc") { Val v = call(*fir, "getElement", {Val((unsigned)a[1].i())}); if (kind == "mat") { Mat m = v.value(); o.s("ok").m(m); } else { double d = v.value(); o.s("ok").r(d); } }
  else if (c == "fir") { ++t; feed(); seen(); double sc = scale(1, 0); std::string r = eval(fir, "sout", sc, t), r2 = eval(fir, "sout", sc, t); o.s("ok").raw(r); if (r != r2) o.s("differs in the same period"); }
  else if (c == "der") { ++t; feed(); seen(); std::string r = eval(der, "sout", scale(1, -1), t); o.s("ok").raw(r); }
  else if (c == "rate") { if (der) { dynamic_cast<dg::Signal<double, int> &>(der->getSignal("dt")) = units()[1] / a[1].n; } else call(*in, "setSamplingPeriod", {Val(units()[1] / a[1].n)}); o.s("ok"); }
  else if (c == "period") { double p = call(*in, "getSamplingPeriod").value(); o.s("ok").r(units()[1] / p); }
  else if (c == "num") { call(*in, "pushNumCoef", {coef(a[1], a.size() > 2 ? a[2].i() : 0)}); o.s("ok"); }
  else if (c == "unit") { unit(a[1].i(), a[2].i()); order = a.size() > 3 ? a[3].i() : 0; o.s("ok"); }
  else if (c == "den") { call(*in, "pushDenomCoef", {coef(a[1], a.size() > 2 ? a[2].i() : 0)}); o.s("ok"); }
  else if (c == "popnum") { call(*in, "popNumCoef"); o.s("ok"); }
  else if (c == "popden") { call(*in, "popDenomCoef"); o.s("ok"); }
  else if (c == "init") { call(*in, "initialize"); o.s("ok"); }
  else if (c == "int") { ++t; feed(); seen(); std::string r = eval(in, a[1].s == "sout" ? "sout" : "derivativesout", scale(SC, a[1].s == "sout" ? order : order - 1), t); o.s("ok").raw(r); }
  else if (c == "both") { ++t; feed(); seen(); std::string r = eval(in, "derivativesout", scale(SC, order - 1), t), r2 = eval(in, "sout", scale(SC, order), t); o.s("ok").raw(r2).raw(r); }
  else if (c == "show") {
    std::ostringstream os; in->display(os); std::string x = os.str(); o.s("ok");
    if (x.find("ill-formed") != std::string::npos) { o.s("ill-formed"); return; }
    size_t p = x.find('\n');
    if (kind == "mat") {                             // matrices take several lines: all the numbers in order
      std::string y = x.substr(p); for (size_t q; (q = y.find("s^")) != std::string::npos;) y.erase(q, 3); for (char &ch : y) if (ch == '\n' || ch == '+') ch = ' ';
      std::istringstream is(y); std::vector<double> v; double d; while (is >> d) v.push_back(d); std::vector<std::string> ms; for (size_t i = 0; i + 3 < v.size(); i += 4) ms.push_back("[[" + O::rs(v[i]) + "," + O::rs(v[i + 1]) + "],[" + O::rs(v[i + 2]) + "," + O::rs(v[i + 3]) + "]]");
      o.raw("[" + [&] { std::string r; for (size_t i = 0; i < ms.size(); ++i) r += (i ? "," : "") + ms[i]; return r; }() + "]"); return; }
    size_t q = x.find('\n', p + 1); o.raw(list(x.substr(p + 1, q - p - 1))).raw(list(x.substr(q + 1))); }
  else o.s("unknown");
}
int main() { classifier() = [](O &o) { bool r = excname(o); ++t; for (dg::Entity *e : {fir, der, in}) if (e) { e->getSignal("sout").setReady(); if (e == in) e->getSignal("derivativesout").setReady(); } return r; }; return run(reset, op); }
