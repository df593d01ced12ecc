// Common driver for the conformance harnesses: reads one JSON array per line
// (an operation of the TLA+ specification), runs it on the real code, and
// prints one JSON array per line (the observation).
#ifndef VERIF_H_HH
#define VERIF_H_HH
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <csignal>
#include <cerrno>
#include <sys/wait.h>
namespace vh {
struct J {
  enum K { NUM, STR, ARR, BOOL } k = NUM;
  double n = 0; std::string s; std::vector<J> a;
  int i() const { return (int)n; }
  bool b() const { return n != 0; }
  const J &operator[](size_t x) const { static J none; return x < a.size() ? a[x] : none; }
  size_t size() const { return a.size(); }
  std::vector<int> ints() const { std::vector<int> r; for (auto &x : a) r.push_back(x.i()); return r; }
};
inline void ws(const char *&p) { while (*p == ' ' || *p == '\t') ++p; }
inline J parse(const char *&p) {
  ws(p); J r;
  if (*p == '[') { ++p; r.k = J::ARR; ws(p); while (*p && *p != ']') { r.a.push_back(parse(p)); ws(p); if (*p == ',') ++p; ws(p); } if (*p) ++p; }
  else if (*p == '"') { ++p; r.k = J::STR; while (*p && *p != '"') { if (*p == '\\') { ++p; char c = *p++; if (c == 'n') r.s += '\n'; else if (c == 't') r.s += '\t'; else if (c == 'r') r.s += '\r'; else if (c == 'u') { r.s += (char)strtol(std::string(p, 4).c_str(), 0, 16); p += 4; } else r.s += c; } else r.s += *p++; } if (*p) ++p; }
  else if (*p == 't') { r.k = J::BOOL; r.n = 1; p += 4; }
  else if (*p == 'f') { r.k = J::BOOL; r.n = 0; p += 5; }
  else { char *e; r.n = strtod(p, &e); if (e == p) ++e; p = e; }
  return r;
}
inline std::string esc(const std::string &s) {
  std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\""; }
// the units in which the specifications express values (0) and time (1): no behaviour depends on them
inline double *units() { static double u[2] = {1, 1}; return u; }
inline void unit(int v = 0, int t = 0) { static const double k[] = {1, 1 / 3., -.37, 1e5 / 7, 1.1e-5 / 3}; units()[0] = k[v]; units()[1] = std::fabs(k[t]); }
// observation builder
struct O {
  std::string t; bool first = true;
  void sep() { if (!first) t += ","; first = false; }
  O &i(long v) { sep(); t += std::to_string(v); return *this; }
  O &s(const std::string &v) { sep(); t += esc(v); return *this; }
  O &b(bool v) { sep(); t += v ? "true" : "false"; return *this; }
  O &raw(const std::string &v) { sep(); t += v; return *this; }
  // real number, in units of 1/scale; values off the grid are printed as text
  O &r(double v, double scale = 1, double tol = 1e-6) { sep(); t += rs(v, scale, tol); return *this; }
  static std::string rs(double v, double scale = 1, double tol = 1e-6) {
    if (std::isnan(v)) return "\"nan\""; if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
    if (units()[0] != 1 || units()[1] != 1) tol = std::min(tol, 2e-9);
    double x = v * scale, q = std::floor(x + 0.5);
    if (std::fabs(x - q) > tol * std::max(1.0, std::fabs(q) * 1e-3) || std::fabs(q) > 2e9) { char b[64]; snprintf(b, 64, "\"~%.9g\"", v); return b; }
    char b[64]; snprintf(b, 64, "%.0f", q == 0 ? 0.0 : q); return b; }
  template <class V> static std::string vs(const V &v, double scale = 1, double tol = 1e-6) { std::string r = "["; for (long i = 0; i < (long)v.size(); ++i) { if (i) r += ","; r += rs(v(i), scale, tol); } return r + "]"; }
  template <class M> static std::string ms(const M &m, double scale = 1, double tol = 1e-6) { std::string r = "["; for (long i = 0; i < (long)m.rows(); ++i) { if (i) r += ","; r += "["; for (long j = 0; j < (long)m.cols(); ++j) { if (j) r += ","; r += rs(m(i, j), scale, tol); } r += "]"; } return r + "]"; }
  template <class V> O &v(const V &x, double scale = 1, double tol = 1e-6) { sep(); t += vs(x, scale, tol); return *this; }
  template <class M> O &m(const M &x, double scale = 1, double tol = 1e-6) { sep(); t += ms(x, scale, tol); return *this; }
  O &is(const std::vector<int> &x) { sep(); t += "["; for (size_t i = 0; i < x.size(); ++i) { if (i) t += ","; t += std::to_string(x[i]); } t += "]"; return *this; }
  O &ss(const std::vector<std::string> &x) { sep(); t += "["; for (size_t i = 0; i < x.size(); ++i) { if (i) t += ","; t += esc(x[i]); } t += "]"; return *this; }
};
typedef std::function<void(const J &, O &)> Handler;
// exceptions are reported by an optional classifier
inline std::function<bool(O &)> &classifier() { static std::function<bool(O &)> f; return f; }
inline int run(std::function<void()> reset, Handler h) {
  // keep the protocol channel to ourselves: the code under test may print
  int fd = dup(1); FILE *out = fdopen(fd, "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    const char *p = line.c_str(); J op = parse(p); O o;
    if (op[0].s == "@reset") { reset(); fprintf(out, "[\"reset\"]\n"); fflush(out); continue; }
    try { h(op, o); }
    catch (...) {
      O e; bool done = false;
      if (classifier()) done = classifier()(e);
      if (!done) { e = O(); try { throw; } catch (const std::exception &x) { e.s("exc").s("std"); } catch (...) { e.s("exc").s("other"); } }
      o = e;
    }
    fprintf(out, "[%s]\n", o.t.c_str()); fflush(out);
  }
  fflush(out);
  return 0;
}
// the same, each history in a process of its own: for code whose state lasts as long as the program
inline int &isolated_child() { static int pid = 0; return pid; }
inline void isolated_end(int st) {
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(128 + WTERMSIG(st)); }
  if (WIFEXITED(st) && WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
}
inline void isolated_chld(int) { int st; int p = isolated_child(); if (p > 0 && waitpid(p, &st, WNOHANG) == p) { isolated_child() = 0; isolated_end(st); } }
inline int run_isolated(std::function<void()> reset, Handler h) {
  signal(SIGPIPE, SIG_IGN); signal(SIGCHLD, isolated_chld);
  int to = -1; std::string line; char c; std::string buf(1 << 16, 0); size_t at = 0, n = 0;
  auto stop = [&]() { if (to >= 0) { close(to); to = -1; while (isolated_child() > 0) usleep(200); } };
  for (;;) {
    if (at == n) { ssize_t k; do k = read(0, &buf[0], buf.size()); while (k < 0 && errno == EINTR); if (k <= 0) break; at = 0; n = k; }
    c = buf[at++]; line += c;
    if (c != '\n') continue;
    if (to < 0 || line.find("@reset") != std::string::npos) {
      stop(); int p[2]; if (pipe(p)) return 3;
      sigset_t m, old; sigemptyset(&m); sigaddset(&m, SIGCHLD); sigprocmask(SIG_BLOCK, &m, &old);
      int pid = fork(); if (pid < 0) return 3;
      if (pid == 0) { signal(SIGCHLD, SIG_DFL); sigprocmask(SIG_SETMASK, &old, 0); close(p[1]); dup2(p[0], 0); close(p[0]); _exit(run(reset, h)); }
      isolated_child() = pid; sigprocmask(SIG_SETMASK, &old, 0); close(p[0]); to = p[1];
    }
    size_t d = 0; while (d < line.size()) { ssize_t k = write(to, line.data() + d, line.size() - d); if (k < 0) { if (errno == EINTR) continue; usleep(1000000); return 4; } d += k; }
    line.clear();
  }
  stop();
  return 0;
}
}  // namespace vh
#endif
