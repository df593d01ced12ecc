#include "ent.hh"
#include <sot/core/joint-trajectory-entity.hh>
#include <sot/core/trajectory.hh>
#include <cstring>
#include <memory>
#include <new>
using namespace vh; namespace S = dynamicgraph::sot;
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x5A, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
static std::unique_ptr<S::Trajectory> tr; static S::SotJointTrajectoryEntity *e; static std::unique_ptr<dg::Signal<S::Trajectory, int>> src; static int t;
static void reset() { wipe(); src.reset(); tr.reset(new S::Trajectory); e = new S::SotJointTrajectoryEntity("jt"); t = 0; }
static std::string num(double v, int style) { char b[64]; v /= 4; if (style == 0) snprintf(b, 64, "%.2f", v); else if (style == 1) { snprintf(b, 64, "%.6f", v); } else { if (v == std::floor(v)) snprintf(b, 64, "%.0f.", v); else snprintf(b, 64, "%.2f", v); } return b; }
static std::string part(const J &s, int st) { std::string r = "("; for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + num(s[i].n, st); return r + ")"; }
static std::string point(const J &p, int st, int parts = 4) { std::string r = "("; for (int i = 0; i < parts; ++i) r += (i ? "," : "") + part(p[i], st); return parts == 4 ? r + ")" : r; }
static std::string head(const J &a, int st) { return "(" + std::to_string((long)a[0].n) + ",(" + num(a[1].n * 4, st) + "," + num(a[2].n * 4, st) + ")," + a[3].s + "),("; }
static std::string names(const J &a, size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + a[4][i].s; return r; }
static std::string text(const J &a, int st) { std::string r = head(a, st) + names(a, a[4].size()) + "),("; for (size_t i = 0; i < a[5].size(); ++i) r += (i ? "," : "") + point(a[5][i], st); return r + ")"; }
static std::vector<double> dv(const J &j) { std::vector<double> r; for (auto &x : j.a) r.push_back(x.n / 4); return r; }
static S::Trajectory build(const J &a) { S::Trajectory x; x.header_.seq_ = a[0].n; x.header_.stamp_ = S::timestamp(a[1].n, a[2].n); x.header_.frame_id_ = a[3].s; for (auto &n : a[4].a) x.joint_names_.push_back(n.s);
  for (auto &p : a[5].a) { S::JointTrajectoryPoint q; for (int k = 0; k < 4; ++k) q.transfer(dv(p[k]), k); x.points_.push_back(q); } return x; }
static std::string seqs(const std::vector<double> &v) { return O::vs(Eigen::Map<const Vec>(v.data(), v.size()), 4); }
static std::string pts(const S::Trajectory &x) { std::string r = "["; for (size_t i = 0; i < x.points_.size(); ++i) { auto &p = x.points_[i]; r += std::string(i ? "," : "") + "[" + seqs(p.positions_) + "," + seqs(p.velocities_) + "," + seqs(p.accelerations_) + "," + seqs(p.efforts_) + "]"; } return r + "]"; }
static std::string whole(const S::Trajectory &x) { O o; o.i(x.header_.seq_).i(x.header_.stamp_.secs_).i(x.header_.stamp_.nsecs_).s(x.header_.frame_id_).ss(x.joint_names_).raw(pts(x)); return "[" + o.t + "]"; }
static void parse(const std::string &s, O &o) { std::istringstream is(s); tr->deserialize(is); o.s("ok"); }
static void op(const J &a, O &o) {
  std::string c = a[0].s;
  if (c == "parse") parse(text(a[1], a[2].i()), o);
  else if (c == "cutnames") { int n = a[2].i(); parse(head(a[1], 0) + names(a[1], n) + (n ? "," : ""), o); }
  else if (c == "cutpoints") { std::string r = head(a[1], 0) + names(a[1], a[1][4].size()) + "),("; int n = a[2].i(), m = a[3].i(); for (int i = 0; i < n; ++i) r += (i ? "," : "") + point(a[1][5][i], 0); if (m < 4) r += (n ? "," : "") + point(a[1][5][n], 0, m); parse(r, o); }
  else if (c == "read") o.s("ok").raw(whole(*tr));
  else if (c == "copy") { if (a[1].s == "construct") { S::Trajectory x(*tr); o.s("ok").raw(whole(x)); } else { S::Trajectory x; x = *tr; o.s("ok").raw(whole(x)); } }
  else if (c == "show") {                         // the text shown, read back
    std::ostringstream os; tr->display(os); std::istringstream is(os.str()); std::string l; std::vector<std::string> js; int n = -1; std::string r = "["; int k = -1; bool first = true;
    while (std::getline(is, l)) {
      size_t q;
      if (l.compare(0, 6, "Joint(") == 0) { q = l.find(")="); js.push_back(atoi(l.c_str() + 6) == (int)js.size() ? l.substr(q + 2) : "?"); }
      else if ((q = l.find("Number of points:")) != std::string::npos) n = atoi(l.c_str() + q + 17);
      else if (l == "Positions" || l == "Velocities" || l == "Accelerations" || l == "Effort") { static const char *w[] = {"Positions", "Velocities", "Accelerations", "Effort"}; k = (k + 1) % 4; if (l != w[k]) r += "?"; if (k == 0) r += r == "[" ? "[[" : "],[["; else r += ","; if (k) r += "["; first = true; std::getline(is, l);
        std::streampos at = is.tellg(); while (std::getline(is, l) && !l.empty() && (isdigit(l[0]) || l[0] == '-' )) { r += (first ? "" : ",") + O::rs(atof(l.c_str()), 4); first = false; at = is.tellg(); if (is.eof()) break; } r += "]"; if (is) is.seekg(at); else { is.clear(); is.seekg(0, std::ios::end); } }
    }
    if (r != "[") r += "]"; o.s("ok").ss(js).i(n).raw(r + "]"); }
  else if (c == "in") { if (!src) src.reset(new dg::Signal<S::Trajectory, int>("src")); src->setConstant(build(a[1])); e->trajectorySIN.plug(src.get()); o.s("ok"); }
  else if (c == "init") { call(*e, "initTraj", {Val(text(a[1], 0))}); o.s("ok"); }
  else if (c == "eval") {
    ++t; if (odd(t) && src) { if (src->getReady()) { src->setReady(false); src->setTime(t); } } std::string r = "["; bool f = true;
    for (auto &x : a[1].a) {
      std::string k = x.s; r += f ? "" : ","; f = false;
      if (k == "seqid") r += std::to_string(e->seqIdSOUT(t));
      else if (k == "waist") { Eigen::Matrix4d m = e->waistSOUT(t).matrix(); double th = std::atan2(m(1, 0), m(0, 0)); Eigen::Matrix4d z = Eigen::Matrix4d::Identity(); z.topLeftCorner<3, 3>() = Eigen::AngleAxisd(th, Eigen::Vector3d::UnitZ()).toRotationMatrix(); z.topRightCorner<3, 1>() = m.topRightCorner<3, 1>();
        double ref = e->comSOUT(t).size() == 3 ? e->comSOUT(t)(2) : 0; th += 2 * M_PI * std::floor((ref - th) / (2 * M_PI) + .5);
        if (!z.isApprox(m, 1e-9)) r += "\"not a heading\""; else { Vec v(4); v << m(0, 3), m(1, 3), m(2, 3), th; r += O::vs(v, 1000); } }
      else { Vec v = k == "position" ? e->positionSOUT(t) : k == "com" ? e->comSOUT(t) : e->zmpSOUT(t); r += O::vs(v, k == "zmp" ? 1000 : 4); }
    }
    o.s("ok").raw(r + "]"); }
  else o.s("unknown");
}
int main() { classifier() = [](O &o) { bool r = excname(o); e->OneStepOfUpdateS.setReady(); return r; }; return run(reset, op); }
