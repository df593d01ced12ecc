// the loader of the controller: library, interpreter, device, periods
#include "ent.hh"
#include <dlfcn.h>
#include <fstream>
#include <algorithm>
#include <sot/core/exception-tools.hh>
#include <sot/core/sot-loader.hh>
using namespace vh; namespace S = dynamicgraph::sot;
static std::vector<std::string> events; static std::string dir;
struct Thing : dg::Entity { std::string n; Thing(const std::string &x) : Entity(x), n(x) { } ~Thing() { events.push_back("~" + n); } virtual const std::string &getClassName() const { static std::string c = "Thing"; return c; } };
extern "C" void vh_event(const char *e) { events.push_back(e); }
static std::vector<Thing *> owned;
extern "C" void *vh_device(const char *n) { return new Thing(n); }
extern "C" void vh_device_end(void *p) { delete (Thing *)p; }
extern "C" void vh_throw(int k) {
  if (k == 1) throw std::runtime_error("sensors"); if (k == 2) throw std::logic_error("control"); if (k == 3) throw S::ExceptionTools(S::ExceptionTools::GENERIC, "sensors"); if (k == 4) throw 4; if (k == 5) throw std::out_of_range("sensors"); throw std::invalid_argument("control"); }
static S::SotLoader *L = 0; static std::map<std::string, Thing *> kept;
static std::vector<std::string> &cmds() { return dynamicgraph::python::InterpreterLog::log(); }
static std::string path(const std::string &n) { return n == "" ? "" : dir + "/libsot-" + n + ".so"; }
static void reset() {
  auto *pool = dg::PoolStorage::getInstance(); for (const char *n : {"robot", "k"}) if (pool->existEntity(n)) pool->deregisterEntity(n);
  delete L; L = 0; for (auto &k : kept) delete k.second; kept.clear(); wipe(); events.clear(); cmds().clear();
  for (const char *n : {"one", "two", "dev", "nocreate"}) { void *h; while ((h = dlopen(path(n).c_str(), RTLD_LAZY | RTLD_NOLOAD))) { dlclose(h); dlclose(h); } } }
// what the recorded commands do in a real interpreter
static std::string python(const std::vector<std::string> &pp, const std::vector<std::string> &sp, bool argv) {
  static std::map<std::string, std::string> cache; std::string t = "pp=["; for (auto &x : pp) t += esc(x) + ","; t += "]\nsp=["; for (auto &x : sp) t += esc(x) + ","; t += std::string("]\nargv=") + (argv ? "True" : "False") + "\ncmds=[";
  for (auto &c : cmds()) { if (c.compare(0, 3, "py:")) return "\"file\""; t += esc(c.substr(3)) + ","; }
  t += "]\n"; if (cache.count(t)) return cache[t];
  char f[] = "/tmp/verif-loader-XXXXXX"; int fd = mkstemp(f); close(fd); std::string o = std::string(f) + ".out";
  { std::ofstream s(f); s << t << R"(
import sys, os, types, json
out = sys.stdout; sys.stdout = open(os.devnull, "w")
for n in ("numpy", "dynamic_graph", "dynamic_graph.sot", "dynamic_graph.sot.core"):
    sys.modules[n] = types.ModuleType(n)
class Device:
    def __init__(self, name): self.name = name
sys.modules["dynamic_graph.sot.core"].Device = Device
os.environ["PYTHONPATH"] = ":".join(pp); sys.path[:] = sp
sys.argv = ["robot"]
if not argv: del sys.argv
g = {"__name__": "__main__"}; err = 0
for c in cmds:
    try: exec(c, g)
    except Exception as e: err += 1
r = [err, sys.path, g.get("np") is sys.modules["numpy"], list(getattr(sys, "argv", ["none"])), getattr(g.get("device_cpp_object"), "name", "none")]
out.write(json.dumps(r)); out.close()
)"; }
  std::system(("exec /usr/bin/python3 -S -E " + std::string(f) + " > " + o + " 2>/dev/null").c_str()); std::ifstream i(o); std::string r; std::getline(i, r); unlink(f); unlink(o.c_str());
  return cache[t] = r == "" ? "\"no answer\"" : r; }
static std::vector<std::string> list(const J &a) { std::vector<std::string> r; for (auto &x : a.a) r.push_back(x.s); return r; }
static void tell(O &o) {     // entities destroyed one after another, in any order
  for (size_t i = 0; i < events.size();) { size_t k = i; while (k < events.size() && events[k][0] == '~') ++k; std::sort(events.begin() + i, events.begin() + k); i = k == i ? i + 1 : k; }
  o.ss(events); events.clear(); }
static void op(const J &a, O &o) {
  std::string c = a[0].s; events.clear(); cmds().clear();
  if (c == "new") { L = new S::SotLoader; o.s("ok").b(L->isDynamicGraphStopped()); }
  else if (c == "free") { S::SotLoader *p = L; L = 0; delete p; o.s("ok"); tell(o); o.i(dg::PoolStorage::getInstance()->getEntityMap().size()); }
  else if (c == "clean") { L->cleanUp(); o.s("ok"); tell(o); o.i(dg::PoolStorage::getInstance()->getEntityMap().size()); }
  else if (c == "opts") { std::vector<std::string> v(1, "prog"); for (auto &x : a[1].a) { std::string s = x.s; size_t p = s.find('@'); if (p != std::string::npos) s = s.substr(0, p) + path(s.substr(p + 1)); v.push_back(s); }
    std::vector<char *> q; for (auto &s : v) q.push_back(&s[0]); q.push_back(0); o.s("ok").i(L->parseOptions(v.size(), q.data())); }
  else if (c == "lib") { std::string p = path(a[1].s); L->setDynamicLibraryName(p); o.s("ok"); }
  else if (c == "init") { bool r = L->initialization(); o.s("ok").b(r); tell(o); if (r) o.raw(python(list(a[1]), list(a[2]), a[3].b())); else o.b(cmds().empty()); }
  else if (c == "start") { L->startDG(); o.s("ok"); } else if (c == "stop") { L->stopDG(); o.s("ok"); }
  else if (c == "status") o.s("ok").b(L->isDynamicGraphStopped());
  else if (c == "iter") { std::map<std::string, S::SensorValues> s; std::map<std::string, S::ControlValues> u; std::vector<double> v(2); v[0] = a[1].n; v[1] = a[2].n; s["s"].setValues(v); v.assign(1, -1); u["u"].setValues(v);
    std::string x; try { L->oneIteration(s, u); } catch (...) { O e; excname(e); x = e.t; }
    o.s("ok").raw("[" + x + "]"); tell(o); o.r(u["u"].getValues()[0]).i(u.size()); }
  else if (c == "entity") { new Thing(a[1].s); o.s("ok"); }
  else if (c == "keep") { kept[a[1].s] = new Thing(a[1].s); o.s("ok"); }
  else if (c == "drop") { Thing *t = kept[a[1].s]; kept.erase(a[1].s); delete t; o.s("ok"); tell(o); }
  else if (c == "device") { L->loadDeviceInPython(a[1].s); o.s("ok"); o.raw(python({"/n"}, {"/p"}, true)); }
  else if (c == "cmd") { std::string r, u, e; L->runPythonCommand(a[1].s, r, u, e); o.s("ok").ss(cmds()).s(r).s(u).s(e); }
  else if (c == "file") { std::string e = "?"; if (a[2].b()) L->runPythonFile(a[1].s, e); else L->runPythonFile(a[1].s); o.s("ok").ss(cmds()).s(e); }
  else if (c == "loaded") { std::vector<std::string> r; for (const char *n : {"one", "two", "dev", "nocreate"}) { void *h = dlopen(path(n).c_str(), RTLD_LAZY | RTLD_NOLOAD); if (h) { dlclose(h); r.push_back(n); } } o.s("ok").ss(r); }
  else o.s("?");
}
int main() { classifier() = excname; char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); dir = std::string(b, n); dir = dir.substr(0, dir.rfind('/')); return run(reset, op); }
