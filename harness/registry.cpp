// names of features and tasks, graphs
#include "ent.hh"
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <sot/core/feature-1d.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-point6d.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/flags.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>
using namespace vh; using namespace dynamicgraph::sot;
static std::map<std::string, dg::Entity *> ent; static std::map<std::string, std::string> kind;
static void reset() { wipe(); ent.clear(); kind.clear(); }
// a reader of the dot language
struct Bad {};
struct Dot {
  std::string s; size_t p = 0; std::string name; std::vector<std::pair<std::string, std::string>> edges; std::vector<std::string> nodes;
  void ws() { for (;;) { while (p < s.size() && isspace((unsigned char)s[p])) ++p;
    if (s.compare(p, 2, "/*") == 0) { size_t q = s.find("*/", p); if (q == std::string::npos) throw Bad(); p = q + 2; } else break; } }
  bool eat(const std::string &t) { ws(); if (s.compare(p, t.size(), t) == 0) { p += t.size(); return true; } return false; }
  bool isId() { ws(); return p < s.size() && (s[p] == '"' || isalnum((unsigned char)s[p]) || s[p] == '_'); }
  bool quoted = false;
  std::string id() { if (!isId()) throw Bad(); std::string r; quoted = s[p] == '"';
    if (quoted) { for (++p; p < s.size() && s[p] != '"'; ++p) r += s[p]; if (p >= s.size()) throw Bad(); ++p; return r; }
    bool digit = isdigit((unsigned char)s[p]);
    while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) { if (digit && !isdigit((unsigned char)s[p])) throw Bad(); r += s[p++]; }
    return r; }
  void attrs() { while (eat("[")) { while (!eat("]")) { id(); if (!eat("=")) throw Bad(); id(); if (!eat(",")) eat(";"); } } }
  void stmts() { while (isId()) { std::string a = id(); bool q = quoted;
      if (!q && a == "subgraph") { id(); if (!eat("{")) throw Bad(); stmts(); if (!eat("}")) throw Bad(); }
      else if (!q && (a == "graph" || a == "node" || a == "edge")) attrs();
      else if (eat("->")) { std::string b = id(); attrs(); edges.push_back({a, b}); }
      else if (eat("=")) id();
      else { attrs(); nodes.push_back(a); }
      eat(";"); } }
  void part() { stmts(); ws(); if (p != s.size()) throw Bad(); }
  void whole() { if (id() != "digraph") throw Bad(); name = id(); if (!eat("{")) throw Bad(); stmts(); if (!eat("}")) throw Bad(); ws(); if (p != s.size()) throw Bad(); }
};
static void op(const J &a, O &o) {
  std::string c = a[0].s; const std::string &x = a[1].s;
  if (c == "new") { const std::string &n = a[2].s; dg::Entity *e;
    if (x == "gen") e = new FeatureGeneric(n); else if (x == "p6") e = new FeaturePoint6d(n); else if (x == "one") e = new Feature1D(n); else if (x == "post") e = new FeaturePosture(n); else if (x == "task") e = new Task(n); else { e = new Sot(n); call(*e, "setSize", {Val(3u)}); }
    ent[n] = e; kind[n] = x; }
  else if (c == "del") { delete ent[x]; ent.erase(x); kind.erase(x); }
  else if (c == "feature" || c == "task") {
    auto *p = dynamicgraph::sot::PoolStorage::getInstance(); dg::Entity *e = c == "task" ? (dg::Entity *)&p->getTask(x) : (dg::Entity *)&p->getFeature(x);
    o.s("ok").s(ent.count(x) && ent[x] == e ? kind[x] : "another object"); return; }
  else if (c == "ref") call(*ent[x], "setReference", {Val(a[2].s)});
  else if (c == "unref") dynamic_cast<FeatureAbstract *>(ent[x])->unsetReference();
  else if (c == "getref") { std::string r = call(*ent[x], "getReference").value(); o.s("ok").s(r); return; }
  else if (c == "add") call(*ent[x], "add", {Val(a[2].s)});
  else if (c == "push") call(*ent[x], "push", {Val(a[2].s)});
  else if (c == "clear") call(*ent[x], "clear");
  else if (c == "graph" || c == "file") {
    Dot d;
    if (c == "graph") { std::ostringstream s; std::streambuf *old = std::cout.rdbuf(s.rdbuf()); try { ent[x]->writeGraph(std::cout); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); d.s = s.str(); }
    else { std::string f = x + a[2].s + a[3].s + a[4].s; std::remove(f.c_str()); dynamicgraph::sot::PoolStorage::getInstance()->writeGraph(f); std::ifstream in(f); std::ostringstream s; s << in.rdbuf(); d.s = s.str(); in.close(); std::remove(f.c_str()); }
    try { if (c == "graph") d.part(); else d.whole(); } catch (Bad) { o.s("invalid").s(d.s.substr(0, 400)); return; }
    o.s("ok");
    if (c == "file") o.s(d.name); else { std::string t = "["; for (auto &e : d.edges) t += (t.size() > 1 ? "," : "") + ("[" + esc(e.first) + "," + esc(e.second) + "]"); o.raw(t + "]"); }
    o.ss(d.nodes); return; }
  else { o.s("?"); return; }
  o.s("ok");
}
int main() {
  classifier() = excname; char b[] = "/tmp/verif-registry-XXXXXX"; if (!mkdtemp(b) || chdir(b)) return 3; mkdir("sub", 0700); mkdir("sub.d", 0700);
  int r = run(reset, op); std::string d = b; rmdir((d + "/sub").c_str()); rmdir((d + "/sub.d").c_str()); chdir("/"); rmdir(b); return r; }
