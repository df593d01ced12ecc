// Mailbox: the poster is stopped in the middle of a post (in the middle of
// the copy, before the stamp or before the mailbox is released), the reader in
// the middle of a read.
#include "ent.hh"
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <thread>
#include <sys/time.h>
#include <sot/core/mailbox-vector.hh>
#include <sot/core/mailbox.hxx>
using namespace vh; using namespace dynamicgraph::sot;
enum Gate { NONE, COPY, STAMP, UNLOCK };
static std::mutex m; static std::condition_variable cv; static int at = 0, go = 0, date = 0, entered = 0, gone = 0;
static thread_local int gate = NONE, own = 0; static thread_local bool armed = false;
static void stop() { gate = NONE; std::unique_lock<std::mutex> l(m); int mine = ++at; cv.notify_all(); cv.wait(l, [&] { return go >= mine; }); }
extern "C" int gettimeofday(struct timeval *tv, void *) {
  if (gate == STAMP) stop(); else if (gate == UNLOCK) armed = true;
  int d = own ? own : date; tv->tv_sec = d; tv->tv_usec = d + 1; return 0; }
// the mailbox is released by giving back its lock, or by taking the one that protects its state
extern "C" int pthread_mutex_lock(pthread_mutex_t *x) {
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (armed) { armed = false; stop(); }
  return real(x); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *x) {
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  if (armed) { armed = false; stop(); }
  return real(x); }
struct Two { int a, b; explicit Two(int v = 0) : a(v), b(v) {}
  Two(const Two &o) : a(o.a) { if (gate == COPY) stop(); b = o.b; }
  Two &operator=(const Two &o) { a = o.a; if (gate == COPY) stop(); b = o.b; return *this; } };
namespace dynamicgraph { template <> struct signal_io<Two> : signal_io_unimplemented<Two> {};
namespace sot { template <> const std::string Mailbox<Two>::CLASS_NAME = "MailboxTwo"; } }
static Vec msg(const Vec *, int v) { Vec x(1 + v % 3); for (int i = 0; i < x.size(); ++i) x(i) = v + i; return x; }
static Two msg(const Two *, int v) { return Two(v); }
static int val(const Vec &x) { if (!x.size()) return 0; int v = x(0); return x == msg(&x, v) ? v : -1; }
static int val(const Two &x) { return x.a == x.b ? x.a : -1; }
static int day(const struct timeval &t) { return t.tv_usec == t.tv_sec + 1 ? t.tv_sec : -1; }
struct Th { std::thread t; bool done; };
template <class X> struct Rig {
  typedef Mailbox<X> Box; Box *B; Th *H, *W, *R; int T; MailboxTimestampedObject<X> seen;
  template <class F> Th *start(F f) { Th *t = new Th; t->done = false; t->t = std::thread([t, f] { f(); armed = false; std::unique_lock<std::mutex> l(m); t->done = true; cv.notify_all(); }); return t; }
  Th *poster(int v, int g, int d) { return start([=] { gate = g; own = g == UNLOCK ? d : 0; B->post(msg((X *)0, v)); }); }
  // waits until t is stopped, or through
  void reach(Th *t) { std::unique_lock<std::mutex> l(m); ++entered; cv.wait(l, [&] { return at >= entered || t->done; }); if (at < entered) --entered; }
  void join(Th *&t) { { std::unique_lock<std::mutex> l(m); go = entered; cv.notify_all(); } t->t.join(); delete t; t = 0; }
  void next() { H = W; W = 0; if (H) reach(H); }
  void finish(int d) { { std::unique_lock<std::mutex> l(m); date = d; } join(H); next(); }
  void reset() { if (R) { join(R); next(); } while (H) finish(1); T = 0; }
  static int kind(const std::string &s) { return s == "copy" ? COPY : s == "stamp" ? STAMP : UNLOCK; }
  void op(const J &a, O &o) {
    std::string c = a[0].s; int x = a[1].i(); ++T;
    if (c == "post") { date = a[2].i(); B->post(msg((X *)0, x)); }
    else if (c == "begin") { H = poster(x, kind(a[2].s), a[3].i()); reach(H); }
    else if (c == "queue") { W = poster(x, kind(a[2].s), a[3].i()); std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    else if (c == "end") finish(x);
    else if (c == "beginread") { R = start([this] { gate = COPY; int t = T; seen = B->SOUT.access(t); }); reach(R); }
    else if (c == "endread") { join(R); next(); int v = val(seen.obj); if (v) o.s("ok").i(v).i(day(seen.timestamp)); else o.s("ok").s("none"); return; }
    else if (c == "read") { std::string w = a[1].s; int v;
      if (w == "object") { v = val(sig<X>(*B, "object").access(T)); if (v) o.s("ok").i(v); }
      else if (w == "timestamp") { struct timeval t = sig<struct timeval>(*B, "timestamp").access(T); v = val(B->SOUT.accessCopy().obj); if (v) o.s("ok").i(day(t)); }
      else { const MailboxTimestampedObject<X> &r = sig<MailboxTimestampedObject<X>>(*B, "sout").access(T); v = val(r.obj); if (v) o.s("ok").i(v).i(day(r.timestamp)); }
      if (!v) o.s("ok").s("none");
      return; }
    else if (c == "updated") { o.s("ok").b(B->hasBeenUpdated()); return; }
    else { o.s("?"); return; }
    o.s("ok"); }
};
static Rig<Vec> V; static Rig<Two> D; static bool two;
static void reset() { V.reset(); D.reset(); wipe(); V.B = new MailboxVector("box"); D.B = new Mailbox<Two>("two"); }
static void op(const J &a, O &o) { alarm(20); if (two) D.op(a, o); else V.op(a, o); alarm(0); }
int main() { two = getenv("MESSAGE") && getenv("MESSAGE") == std::string("two"); classifier() = excname; return run(reset, op); }
