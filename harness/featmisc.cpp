// Half squared error, direction, posture, image point, joint limits.
#include "ent.hh"
#include <sot/core/feature-1d.hh>
#include <sot/core/feature-joint-limits.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/feature-vector3.hh>
#include <sot/core/feature-visual-point.hh>
using namespace vh; using namespace dynamicgraph::sot;
static Feature1D *one; static FeatureVector3 *dir; static FeaturePosture *post; static FeatureVisualPoint *img, *ref; static FeatureJointLimits *lim; static int T;
static void touch(FeatureAbstract &f) { f.errorSOUT.setReady(); f.jacobianSOUT.setReady(); f.errordotSOUT.setReady(); f.dimensionSOUT.setReady(); }
static void touchAll(bool structural) { touch(*one); touch(*dir); if (!structural) { post->errorSOUT.setReady(); post->errordotSOUT.setReady(); } touch(*img); touch(*lim); lim->widthJlSINTERN.setReady(); }
// unit of the errors, directions, postures; of the depth and the linear rows of the Jacobian of the image; of the joints
static double U() { return std::fabs(units()[0]); }
static double UL() { return U() < .1 ? 1 : U(); }     // (a range of less than 1e-3 is none)
static Vec uvec(const J &a) { return vec(a) * U(); }
static Mat umat(const J &a) { return mat(a) * U(); }
static void reset() { unit(); wipe(); T = 1; one = new Feature1D("one"); dir = new FeatureVector3("dir"); post = new FeaturePosture("post"); img = new FeatureVisualPoint("img"); ref = new FeatureVisualPoint("ref"); lim = new FeatureJointLimits("lim"); }
static Flags fl(const J &b, const J &d) { std::vector<bool> x; for (size_t k = 0; k < b.size(); ++k) x.push_back(b[k].b() != d.b()); return d.b() ? !Flags(x) : Flags(x); }
static void op(const J &a, O &o) {
  std::string c = a[0].s; const J &x = a[1];
  if (c == "get") {
    FeatureAbstract &f = x.s == "one" ? (FeatureAbstract &)*one : x.s == "dir" ? (FeatureAbstract &)*dir : x.s == "post" ? (FeatureAbstract &)*post : x.s == "img" ? (FeatureAbstract &)*img : (FeatureAbstract &)*lim;
    std::string w = a[2].s; const bool je = x.s == "one", jl = x.s == "lim";
    const double ue = je ? U() * U() : x.s == "dir" || x.s == "post" ? U() : 1, uj = je ? U() * U() : x.s == "dir" ? U() : jl ? 1 / UL() : 1;
    if (odd(T)) { poll(f, T); poll(*ref, T); }
    try {
      if (w == "error") { const Vec &v = f.errorSOUT.access(T); o.s("ok").v(v, 8 / ue); }
      else if (w == "errordot") { const Vec &v = f.errordotSOUT.access(T); o.s("ok").v(v, 8 / ue); }
      else if (w == "jacobian") { const Mat &v = f.jacobianSOUT.access(T); o.s("ok").m(v, 8 / uj); }
      else if (w == "dim") { unsigned n = f.dimensionSOUT.access(T); o.s("ok").i(n); }
      else if (w == "width") { const Vec &v = lim->widthJlSINTERN.access(T); o.s("ok").v(v, 8 / UL()); }
    } catch (...) { ++T; touchAll(false); throw; }
    return;
  }
  if (c == "unit") { unit(x.i()); put<double>(*img, "Z", U(), false); }   // (the depth is 1 when it is not given)
  else if (c == "oe") put<Vec>(*one, "errorIN", uvec(x), T % 3 == 0);
  else if (c == "oj") put<Mat>(*one, "jacobianIN", umat(x), T % 3 == 0);
  else if (c == "v") put<Vec>(*dir, "vector", uvec(x), T % 3 == 0);
  else if (c == "R") { MatrixHomogeneous M; M.setIdentity(); M.linear() = mat(x); M.translation() << 7, -5, 3; put<MatrixHomogeneous>(*dir, "position", M, T % 3 == 0); }
  else if (c == "vj") put<Mat>(*dir, "Jq", mat(x), T % 3 == 0);
  else if (c == "vd") put<Vec>(*dir, "positionRef", uvec(x), T % 3 == 0);
  else if (c == "q") ++T, put<Vec>(*post, "state", uvec(x), T % 3 == 0), dynamic_cast<dg::Signal<Vec, int> &>(post->getSignal("state")).access(T);  // (known when joints are selected)
  else if (c == "p") ++T, put<Vec>(*post, "posture", uvec(x), T % 3 == 0), dynamic_cast<dg::Signal<Vec, int> &>(post->getSignal("posture")).access(T);  // (known when joints are selected)
  else if (c == "pd") put<Vec>(*post, "postureDot", uvec(x), T % 3 == 0);
  else if (c == "dof") call(*post, "selectDof", {Val((unsigned)x.i()), Val(a[2].b())});
  else if (c == "xy") put<Vec>(*img, "xy", vec(x), T % 3 == 0);
  else if (c == "z") put<double>(*img, "Z", x.n * U(), T % 3 == 0);
  else if (c == "xj") { Mat m = mat(x); m.topRows(3) *= U(); put<Mat>(*img, "Jq", m, T % 3 == 0); }
  else if (c == "rxy") put<Vec>(*ref, "xy", vec(x), T % 3 == 0);
  else if (c == "xsel") put<Flags>(*img, "selec", fl(a[1], a[2]), T % 3 == 0);
  else if (c == "ref") { if (x.i()) call(*img, "setReference", {Val(std::string(x.i() == 1 ? "ref" : "one"))}); else ((FeatureAbstract *)img)->unsetReference(); }
  else if (c == "jq") put<Vec>(*lim, "joint", Vec(vec(x) * UL()), T % 3 == 0);
  else if (c == "ju") put<Vec>(*lim, "upperJl", Vec(vec(x) * UL()), T % 3 == 0);
  else if (c == "jl") put<Vec>(*lim, "lowerJl", Vec(vec(x) * UL()), T % 3 == 0);
  else if (c == "jsel") put<Flags>(*lim, "selec", fl(a[1], a[2]), T % 3 == 0);
  else if (c == "actuate") call(*lim, "actuate");
  else { o.s("?"); return; }
  ++T; o.s("ok");
}
int main() { classifier() = excname; return run(reset, op); }
