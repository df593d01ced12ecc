// robot data shared by name, parameter servers, conversions of configurations
#include <pinocchio/fwd.hpp>
#include "ent.hh"
#include <Eigen/Geometry>
#include <sot/core/parameter-server.hh>
#include <memory>
#include <new>
using namespace vh; namespace S = dynamicgraph::sot;
// memory that was never written does not look like zero
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x5A, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
struct Server : S::ParameterServer {
  Server(const std::string &n) : S::ParameterServer(n) {}
  bool bound() const { return (bool)m_robot_util; }
  using S::ParameterServer::convertJointNameToJointId; using S::ParameterServer::isJointInRange;
};
namespace dynamicgraph { namespace sot { __attribute__((weak)) bool base_urdf_to_sot(ConstRefVector, RefVector); __attribute__((weak)) bool base_sot_to_urdf(ConstRefVector, RefVector); } }
static Server *ps[3]; static S::RobotUtil *conv;
static void reset() { wipe(); ps[1] = new Server("one"); ps[2] = new Server("two"); conv = nullptr; }
static std::string path(const J &p) { std::string r; for (size_t i = 0; i < p.size(); ++i) r += (i ? "/" : "") + p[i].s; return r; }
static Val value(const std::string &kind, const std::string &t) { return kind == "str" ? Val(t) : kind == "int" ? Val(atoi(t.c_str())) : kind == "dbl" ? Val(atof(t.c_str())) : Val(t == "true"); }
static std::string suffix(const std::string &k) { return k == "str" ? "" : k == "int" ? "Int" : k == "dbl" ? "Dbl" : "Bool"; }
static std::string pairs(const std::string &t, const std::string &head, bool name1) {  // "(x,y) (z,t)" on the line after head
  size_t a = t.find(head); if (a == std::string::npos) return "\"absent\""; a = t.find('\n', a) + 1; std::string l = t.substr(a, t.find('\n', a) - a), r = "["; bool f = true;
  for (size_t p = 0; (p = l.find('(', p)) != std::string::npos;) { size_t c = l.find_first_of(",:", p), e = l.find(')', c); std::string x = l.substr(p + 1, c - p - 1), y = l.substr(c + 1, e - c - 1); if (!name1) x.swap(y); while (!x.empty() && x.back() == ' ') x.pop_back(); r += std::string(f ? "" : ",") + "[" + esc(x) + "," + std::to_string(atoi(y.c_str())) + "]"; f = false; p = e; }
  return r + "]"; }
static std::string after(const std::string &t, const std::string &head) { size_t a = t.find(head); if (a == std::string::npos) return "?"; a += head.size(); while (t[a] == ' ' || t[a] == '(') ++a; size_t e = t.find_first_of(")\n", a); return t.substr(a, e - a); }
static Mat rot(const J &a) { double ang[3]; for (int i = 0; i < 3; ++i) ang[i] = std::atan2(a[i][1].n, a[i][0].n);
  return (Eigen::AngleAxisd(ang[2], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(ang[1], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(ang[0], Eigen::Vector3d::UnitX())).toRotationMatrix(); }
static std::string cs(const Vec &q) { std::string r = "["; for (int i = 3; i < 6; ++i) r += std::string(i > 3 ? "," : "") + "[" + O::rs(std::cos(q(i)), 25) + "," + O::rs(std::sin(q(i)), 25) + "]"; return r + "]"; }
static Vec base(const J &a, const J &pos, int sign) { Vec q(7); Eigen::Quaterniond k(Eigen::Matrix3d(rot(a))); q << pos[0].n, pos[1].n, pos[2].n, sign * k.x(), sign * k.y(), sign * k.z(), sign * k.w(); return q; }
static Vec rpy(const J &a, const J &pos) { Vec q(6); q << pos[0].n, pos[1].n, pos[2].n, std::atan2(a[0][1].n, a[0][0].n), std::atan2(a[1][1].n, a[1][0].n), std::atan2(a[2][1].n, a[2][0].n); return q; }
static Vec cat(const Vec &a, const Vec &b) { Vec r(a.size() + b.size()); r << a, b; return r; }
static std::string three(const Vec &v, double s = 1) { return O::vs(Vec(v.head(3)), s); }
static std::string matq(const Vec &q) { Eigen::Quaterniond k(q(6), q(3), q(4), q(5)); if (std::fabs(k.norm() - 1) > 1e-9) return "\"not a unit quaternion\""; return O::ms(Mat(k.toRotationMatrix()), 125); }
static void conversions(const J &a, O &o) {
  std::string c = a[0].s; if (!conv) conv = new S::RobotUtil; int n = conv->m_nbJoints; S::RobotUtil &u = *conv;
  if (c == "map") { if (a[1].s == "std") { std::vector<S::Index> v; for (size_t i = 0; i < a[2].size(); ++i) v.push_back(a[2][i].i()); u.set_urdf_to_sot(v); } else u.set_urdf_to_sot(vec(a[2])); if (O::vs(u.m_dgv_urdf_to_sot) != O::vs(vec(a[2]))) o.s("map differs"); o.s("ok"); }
  else if (c == "ju2s") { Vec r = Vec::Constant(n, 99); if (u.joints_urdf_to_sot(vec(a[1]), r)) o.s("ok").v(r); else o.s("refused"); }
  else if (c == "js2u") { Vec r = Vec::Constant(n, 99); if (u.joints_sot_to_urdf(vec(a[1]), r)) o.s("ok").v(r); else o.s("refused"); }
  else if (c == "vu2s" || c == "vs2u") {
    J z; Vec q = cat(base(a[1], z, 1), Vec::Zero(n)); q.head(3).setConstant(77); Vec v = cat(cat(vec(a[2]), vec(a[3])), vec(a[4])), r = Vec::Constant(n + 6, 99);
    if (!(c == "vu2s" ? u.velocity_urdf_to_sot(q, v, r) : u.velocity_sot_to_urdf(q, v, r))) o.s("refused");
    else o.s("ok").raw(three(r, 125)).raw(O::vs(Vec(r.segment(3, 3)), 125)).v(Vec(r.tail(n))); }
  else if (c == "cu2s") { Vec q = cat(base(a[1], a[2], a[3].i()), vec(a[4])), r = Vec::Constant(n + 6, 99); if (!u.config_urdf_to_sot(q, r)) o.s("refused"); else o.s("ok").raw(three(r)).raw(cs(r)).v(Vec(r.tail(n))); }
  else if (c == "cs2u") { Vec q = cat(rpy(a[1], a[2]), vec(a[4])), r = Vec::Constant(n + 7, 99); if (!u.config_sot_to_urdf(q, r)) o.s("refused"); else o.s("ok").raw(three(r)).raw(matq(r)).v(Vec(r.tail(n))); }
  else if (c == "bu2s") {
    Vec r = Vec::Constant(6, 99), r2; bool ok;
    if (a[3].s == "R") ok = S::base_se3_to_sot(vec(a[2]), rot(a[1]), r);
    else { Vec q = base(a[1], a[2], a[3].s == "q" ? 1 : -1); ok = u.base_urdf_to_sot(q, r); if (S::base_urdf_to_sot) { r2 = Vec::Constant(6, 99); ok = S::base_urdf_to_sot(q, r2) && ok && r2 == r; } }
    if (!ok) o.s("refused"); else o.s("ok").raw(three(r)).raw(cs(r)); }
  else if (c == "bs2u") { Vec r = Vec::Constant(7, 99), r2 = r; bool ok = u.base_sot_to_urdf(rpy(a[1], a[2]), r); if (S::base_sot_to_urdf) ok = S::base_sot_to_urdf(rpy(a[1], a[2]), r2) && ok && r2 == r; if (!ok) o.s("refused"); else o.s("ok").raw(three(r)).raw(matq(r)); }
  else o.s("unknown");
}
static void op(const J &a, O &o) {
  std::string c = a[0].s, r;
  if (c == "create") { r = a[1].s; auto p = S::createRobotUtil(r); bool same = !p || p == S::getRobotUtil(r); o.s(same ? "ok" : "another").b((bool)p); }
  else if (c == "exists") { r = a[1].s; o.s("ok").b(S::isNameInRobotUtil(r)).b((bool)S::getRobotUtil(r)); }
  else if (c == "list") o.s("ok").ss(*S::getListOfRobots());
  else if (c == "init") { call(*ps[a[1].i()], "init", {Val(a[2].n / 1000), Val(a[4].s), Val(a[3].s)}); o.s("ok"); }
  else if (c == "simple") { call(*ps[a[1].i()], "init_simple", {Val(a[2].n / 1000)}); o.s("ok"); }
  else if (c == "s") {
    Server &e = *ps[a[1].i()]; std::string k = a[2].s;
    if (k == "jid") call(e, "setNameToId", {Val(a[3].s), Val(a[4].n)});
    else if (k == "lim") call(e, "setJointLimitsFromId", {Val(a[3].n), Val(a[4].n / 4), Val(a[5].n / 4)});
    else if (k == "fid") call(e, "setForceNameToForceId", {Val(a[3].s), Val(a[4].n)});
    else if (k == "flim") call(e, "setForceLimitsFromId", {Val(a[3].n), Val(vec(a[4], 4)), Val(vec(a[5], 4))});
    else if (k == "foot") call(e, "setFootFrameName", {Val(a[3].s), Val(a[4].s)});
    else if (k == "hand") call(e, "setHandFrameName", {Val(a[3].s), Val(a[4].s)});
    else if (k == "imu") call(e, "setImuJointName", {Val(a[3].s)});
    else if (k == "sole") { call(e, "setRightFootSoleXYZ", {Val(vec(a[3], 4))}); call(e, "setRightFootForceSensorXYZ", {Val(vec(a[3], 8))}); }
    else if (k == "map") call(e, "setJointsUrdfToSot", {Val(vec(a[3]))});
    else if (k == "par") call(e, "setParameter" + suffix(a[4].s), {Val(path(a[3])), value(a[4].s, a[5].s)});
    else throw 1;
    o.s("ok"); }
  else if (c == "get") {
    std::string k = a[3].s; Val v = call(*ps[a[1].i()], "getParameter" + suffix(k), {Val(path(a[2]))});
    o.s("ok"); if (k == "str") o.s(std::string(v.value())); else if (k == "int") o.i(int(v.value())); else if (k == "dbl") o.r(double(v.value()), 2); else o.b(bool(v.value())); }
  else if (c == "getmap") { Vec v = call(*ps[a[1].i()], "getJointsUrdfToSot").value(); o.s("ok").v(v); }
  else if (c == "show") {
    std::ostringstream t; std::streambuf *b = std::cout.rdbuf(t.rdbuf());
    try { call(*ps[a[1].i()], "displayRobotUtil"); } catch (...) { std::cout.rdbuf(b); throw; }
    std::cout.rdbuf(b); std::string x = t.str(); o.s("ok"); if (!ps[a[1].i()]->bound()) return;
    std::string mp = pairs(x, "Map from urdf index", true); std::string list = "["; { size_t p = 0; int k = 0; while ((p = mp.find("[\"", p)) != std::string::npos) { size_t q = mp.find("\"", p + 2), e = mp.find("]", q); if (atoi(mp.substr(p + 2, q - p - 2).c_str()) != k) list += "\"?\""; list += (k ? "," : "") + mp.substr(q + 2, e - q - 2); ++k; p = e; } } list += "]";
    o.i(atoi(after(x, "Nb of joints:").c_str())).raw(list).raw(pairs(x, "Joint name to joint id", true)).raw(pairs(x, "Joint id to joint Name", false)).raw(pairs(x, "Name to force id", true)).raw(pairs(x, "Force id to Name", false));
    for (std::string w : {"Left Hand (", "Right Hand (", "Left Foot (", "Right Foot ("}) o.i(atoi(after(x, w).c_str()));
    o.s(after(x, "Urdf file name:")); }
  else if (c == "q") {
    r = a[1].s; std::string k = a[2].s; auto u = S::getRobotUtil(r); if (!u) { o.s("none"); return; }
    S::ForceUtil &f = u->m_force_util; o.s("ok");
    if (k == "jid") o.i(u->get_id_from_name(a[3].s));
    else if (k == "jname") o.s(u->get_name_from_id(a[3].i()));
    else if (k == "lim") { S::JointLimits l = u->get_joint_limits_from_id(a[3].i()), m = u->cp_get_joint_limits_from_id(a[3].i()); o.raw("[" + O::rs(l.lower, 4) + "," + O::rs(m.upper, 4) + "]"); }
    else if (k == "fid") o.i(f.get_id_from_name(a[3].s));
    else if (k == "fname") { std::string n = f.get_name_from_id(a[3].i()); o.s(n == f.cp_get_name_from_id(a[3].i()) ? n : "differs"); }
    else if (k == "flim") { S::ForceLimits l = f.get_limits_from_id(a[3].i()), m = f.cp_get_limits_from_id(a[3].i()); o.raw("[" + O::vs(l.lower, 4) + "," + O::vs(m.upper, 4) + "]"); }
    else if (k == "spec") o.i(f.get_force_id_left_foot()).i(f.get_force_id_left_hand()).i(f.get_force_id_right_foot()).i(f.get_force_id_right_hand());
    else if (k == "txt") { Vec s = u->m_foot_util.m_Right_Foot_Sole_XYZ, s2 = u->m_foot_util.m_Right_Foot_Force_Sensor_XYZ; o.ss({u->m_foot_util.m_Left_Foot_Frame_Name, u->m_foot_util.m_Right_Foot_Frame_Name}).ss({u->m_hand_util.m_Left_Hand_Frame_Name, u->m_hand_util.m_Right_Hand_Frame_Name}).s(u->m_imu_joint_name).s(u->m_urdf_filename); if (O::vs(s, 4) != O::vs(s2, 8)) o.s("sensor differs"); o.v(s, 4); }
    else if (k == "map") { o.i(u->m_nbJoints); std::vector<int> v(u->m_urdf_to_sot.begin(), u->m_urdf_to_sot.end()); o.is(v); }
    else o.s("unknown"); }
  else if (c == "convert") { Server &e = *ps[a[1].i()]; if (!e.bound()) { o.s("none"); return; } unsigned id = 12345; bool ok = e.convertJointNameToJointId(a[2].s, id); o.s("ok").b(ok).i(ok ? (long)id : id == 12345 ? -1 : -2); }
  else if (c == "inrange") { Server &e = *ps[a[1].i()]; if (!e.bound()) { o.s("none"); return; } o.s("ok").b(e.isJointInRange(a[2].i(), a[3].n / 4)); }
  else if (c == "mimics") {
    std::string x = "<?xml version=\"1.0\"?><robot name=\"r\"><!-- mimic --><link name=\"l0\"><mimic/></link>"; int n = a[1].size();
    for (int i = 0; i < n; ++i) {
      std::string nm = a[1][i][0].s; bool m = a[1][i][1].b();
      x += i % 2 ? "<joint type=\"revolute\" name=\"" + nm + "\">" : "<joint name=\"" + nm + "\" type=\"fixed\">";
      x += "<parent link=\"l0\" name=\"wrong\"/>"; if (m && i % 3 == 0) x += "<mimic joint=\"q\" multiplier=\"-1\"/>";
      x += "<child link=\"l1\"/><limit lower=\"0\"><extra><mimic joint=\"deep\"/></extra></limit>"; if (m && i % 3) x += i % 3 == 1 ? "<mimic joint=\"j1\" offset=\"0\"></mimic>" : "<mimic/>";
      x += "</joint><link name=\"l" + std::to_string(i + 1) + "\"><visual name=\"mimic\"/></link>"; }
    x += "</robot>"; S::ExtractJointMimics e(x); o.s("ok").ss(e.get_mimic_joints()); }
  else if (c == "badxml") { std::string x = "<robot><joint name=\"a\"><mimic/></robot>"; S::ExtractJointMimics e(x); o.s("ok"); }
  else conversions(a, o);
}
int main() { classifier() = excname; return run_isolated(reset, op); }
