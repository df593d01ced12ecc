// features that place frames, lines, points
#include "ent.hh"
#include <cmath>
#include <sot/core/feature-line-distance.hh>
#include <sot/core/feature-point6d-relative.hh>
#include <sot/core/feature-point6d.hh>
#include <sot/core/feature-pose.hh>
#include <sot/core/visual-point-projecter.hh>
using namespace vh; using namespace dynamicgraph::sot;
typedef MatrixHomogeneous H;
static dg::Entity *e, *ref; static FeatureAbstract *f; static std::string kind; static int T, nref;
// lengths may be in any unit: translations, and the linear rows of velocities and Jacobians
static double U() { return std::fabs(units()[0]); }
static std::vector<bool> lin;                 // which rows of the outputs are lengths
static void select(const std::vector<bool> &b) { lin.clear(); for (size_t i = 0; i < 6; ++i) if (i >= b.size() || b[i]) lin.push_back(i < 3); }
static Vec uvec(const J &a) { Vec v = vec(a); for (int i = 0; i < 3 && i < v.size(); ++i) v(i) *= U(); return v; }
static Vec dirs(Vec v) { if (v.size() > 3) v.tail(v.size() - 3) *= std::sqrt(U()); return v; }
static Mat umat(const J &a) { Mat m = mat(a); for (int i = 0; i < 3 && i < m.rows(); ++i) m.row(i) *= U(); return m; }
static double W() { return std::sqrt(U()); }     // directions have any length
static double back(int i) { return i < (int)lin.size() && lin[i] ? 1 / U() : 1; }
static void reset() { unit(); select({}); wipe(); e = ref = nullptr; f = nullptr; T = 1; nref = 0; kind = ""; }
static H homo(const J &a) { H h; h.setIdentity(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) h.matrix()(i, j) = a[i][j].n * (j == 3 ? U() : 1); return h; }
static std::string code(double v) {
  const double k = M_PI / 4, q = M_PI / (3 * std::sqrt(3.)), tol = U() == 1 ? 1e-9 : 2e-9; double n;
  n = std::round(2 * v); if (std::fabs(2 * v - n) < tol) return std::to_string((long)(3 * n));
  n = std::round(v / k); if (std::fabs(v / k - n) < tol) return std::to_string((long)(3 * n + 1));
  n = std::round(v / q); if (std::fabs(v / q - n) < tol) return std::to_string((long)(3 * n + 2));
  char b[64]; snprintf(b, sizeof b, "\"%.17g\"", v); return b; }
static std::string row(const Vec &v) { std::string s = "["; for (int i = 0; i < v.size(); ++i) s += (i ? "," : "") + code(v(i) * back(i)); return s + "]"; }
static std::string rows(const Mat &m) { std::string s = "["; for (int i = 0; i < m.rows(); ++i) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); ++j) s += (j ? "," : "") + code(m(i, j) * back(i)); s += "]"; } return s + "]"; }
static void touch() {
  if (f) { f->errorSOUT.setReady(); f->jacobianSOUT.setReady(); f->errordotSOUT.setReady(); f->dimensionSOUT.setReady(); }
  const char *n[] = {"line"}; for (auto s : n) if (kind == "line") e->getSignal(s).setReady(); }
static bool coded() { return kind != "line" && kind != "proj"; }
static void get(const std::string &w, O &o) {
  ++T; if (odd(T)) { poll(*e, T); if (ref) poll(*ref, T); if (f) f->dimensionSOUT.access(T); }
  if (w == "dim") { unsigned n = f->dimensionSOUT.access(T); o.s("ok").i(n); }
  else if (w == "error") { const Vec &v = f->errorSOUT.access(T); o.s("ok"); if (coded()) o.raw(row(v)); else o.v(v, 4 / U() * W() * W()); }
  else if (w == "errordot") { const Vec &v = f->errordotSOUT.access(T); o.s("ok").raw(row(v)); }
  else if (w == "jacobian") { const Mat &m = f->jacobianSOUT.access(T); o.s("ok"); if (coded()) o.raw(rows(m)); else o.m(m, 16 / U() * W() * W()); }
  else if (w == "pose") { const H &h = sig<H>(*e, "faMfb").access(T); Mat m = h.matrix().topRows(3); m.col(3) /= U(); o.s("ok").m(m); }
  else if (w == "line") { const Vec &v = sig<Vec>(*e, "line").access(T); Vec x = v; x.head(3) /= U(); x.tail(3) /= W(); o.s("ok").v(x); }
  else if (w == "gaze") { const Vec &v = sig<Vec>(*e, "point3Dgaze").access(T); o.s("ok").v(v, 1 / U()); }
  else if (w == "depth") { double v = sig<double>(*e, "depth").access(T); o.s("ok").r(v, 1 / U()); }
  else if (w == "image") { const Vec &v = sig<Vec>(*e, "point2D").access(T); o.s("ok").v(v, 4); }
  else o.s("?");
}
template <class F> static void mk(F *x) { e = x; f = x; }
static void op(const J &a, O &o) {
  std::string c = a[0].s; const J &x = a[1];
  if (c == "get") {
    try { get(x.s, o); } catch (...) { ++T; touch(); if (kind == "proj") { e->getSignal("point3Dgaze").setReady(); e->getSignal("depth").setReady(); e->getSignal("point2D").setReady(); } throw; }
    return; }
  ++T;
  if (c == "unit") unit(x.i());
  else if (c == "new") { kind = x.s; select({});
    if (kind == "p6") mk(new FeaturePoint6d("e")); else if (kind == "rel") mk(new FeaturePoint6dRelative("e"));
    else if (kind == "pose") mk(new FeaturePose<R3xSO3Representation>("e")); else if (kind == "poseSE3") mk(new FeaturePose<SE3Representation>("e"));
    else if (kind == "line") mk(new FeatureLineDistance("e")); else e = new VisualPointProjecter("e");
    if (kind == "poseSE3") kind = "pose";
    if (kind == "line") { put<Flags>(*e, "selec", Flags(true), false); sig<Flags>(*e, "selec").access(T); f->dimensionSOUT.access(T); } }  // known: what follows depends on the inputs alone
  else if (c == "in") { const std::string &n = x.s; const J &v = a[2];
    if (n == "pos") put<H>(*e, "position", homo(v), T % 3 == 0), sig<H>(*e, "position").access(T);  // (known when it has to be kept)
    else if (n == "jq") put<Mat>(*e, "Jq", umat(v), T % 3 == 0);
    else if (n == "rpos") put<H>(*ref, "position", homo(v), T % 3 == 0);
    else if (n == "rvel") put<Vec>(*ref, "velocity", uvec(v), T % 3 == 0);
    else if (n == "pref") put<H>(*e, "positionRef", homo(v), T % 3 == 0);
    else if (n == "jref") put<Mat>(*e, "JqRef", umat(v), T % 3 == 0);
    else if (n == "dpos") put<H>(*ref, "position", homo(v), T % 3 == 0);
    else if (n == "dpref") { put<H>(*ref, "positionRef", homo(v), T % 3 == 0); f->errorSOUT.setReady(); }  // not announced to the feature
    else if (n == "a") put<H>(*e, "oMja", homo(v), T % 3 == 0); else if (n == "fa") put<H>(*e, "jaMfa", homo(v), T % 3 == 0);
    else if (n == "b") put<H>(*e, "oMjb", homo(v), T % 3 == 0); else if (n == "fb") put<H>(*e, "jbMfb", homo(v), T % 3 == 0);
    else if (n == "ja") put<Mat>(*e, "jaJja", umat(v), T % 3 == 0); else if (n == "jb") put<Mat>(*e, "jbJjb", umat(v), T % 3 == 0);
    else if (n == "des") put<H>(*e, "faMfbDes", homo(v), T % 3 == 0); else if (n == "nu") put<Vec>(*e, "faNufafbDes", uvec(v), T % 3 == 0);
    else if (n == "v") put<Vec>(*e, "vector", Vec(vec(v) * W()), T % 3 == 0); else if (n == "r") put<Vec>(*e, "positionRef", dirs(uvec(v)), T % 3 == 0);
    else if (n == "p") put<Vec>(*e, "point3D", uvec(v), T % 3 == 0); else if (n == "m") put<H>(*e, "transfo", homo(v), T % 3 == 0);
    else { o.s("?"); return; } }
  else if (c == "ref") {
    bool on = x.k == J::STR ? x.s != "none" : x.b();
    if (!on) f->unsetReference();
    else { std::string n = "ref" + std::to_string(++nref);
      if (x.k == J::STR && x.s == "relative") ref = new FeaturePoint6dRelative(n); else ref = new FeaturePoint6d(n);
      f->setReferenceByName(n); } }
  else if (c == "frame") { call(*e, "frame", {Val(x.s)}); }
  else if (c == "getFrame") { std::string s = call(*e, "getFrame").value(); o.s("ok").s(s); return; }
  else if (c == "selec") { std::vector<bool> b; for (size_t k = 0; k < x.size(); ++k) b.push_back(x[k].b()); select(b); put<Flags>(*e, "selec", Flags(b), T % 3 == 0); }
  else if (c == "keep") { if (kind == "pose") call(*e, "keep", {Val(T)}); else call(*e, "keep"); }
  else if (c == "freeze") { std::string n = "ref" + std::to_string(++nref); ref = new FeaturePoint6dRelative(n); call(*e, "initSdes", {Val(n)}); }
  else { o.s("?"); return; }
  o.s("ok");
}
int main() { classifier() = excname; return run(reset, op); }
