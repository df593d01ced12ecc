// replay of recorded data
#include "ent.hh"
#include <cstdlib>
#include <fstream>
#include <sot/core/reader.hh>
using namespace vh; using namespace dynamicgraph::sot;
static sotReader *e; static int T, nf; static std::string dir;
static void reset() { wipe(); e = new sotReader("e"); T = 1; e->vectorSOUT.setReady(); e->matrixSOUT.setReady(); }
static std::string num(double v) { char b[32]; snprintf(b, sizeof b, "%g", v / 4); return b; }
static void op(const J &a, O &o) {
  std::string c = a[0].s; const J &x = a[1];
  if (c == "load") {
    std::string n = dir + "/f" + std::to_string(++nf); { std::ofstream f(n);
    for (size_t i = 0; i < x.size(); ++i) { std::string k = x[i][0].s; const J &v = x[i][1];
      if (k == "word") f << "# some words 1 2 3"; if (k == "blank") f << " \t";
      for (size_t j = 0; j < v.size(); ++j) f << (j || k == "tail" ? (k == "long" ? std::string(700, ' ') : k == "crlf" ? "\t" : " ") : "") << num(v[j].n);
      if (k == "tail") f << " etc 7 8"; if (k == "crlf") f << "\r";
      if (k != "last") f << "\n"; } }
    call(*e, "load", {Val(n)}); std::remove(n.c_str()); }
  else if (c == "missing") call(*e, "load", {Val(dir + "/none")});
  else if (c == "clear") call(*e, "clear");
  else if (c == "rewind") call(*e, "rewind");
  else if (c == "resize") call(*e, "resize", {Val(x.i()), Val(a[2].i())});
  else if (c == "selec") { std::vector<bool> b; bool d = a[2].b(); for (size_t k = 0; k < x.size(); ++k) b.push_back(x[k].b() != d); sig<Flags>(*e, "selec") = d ? !Flags(b) : Flags(b); }
  else if (c == "next") { ++T; e->vectorSOUT.setReady(); e->matrixSOUT.setReady(); }
  else if (c == "vector") { const Vec &v = sig<Vec>(*e, "vector").access(T); o.s("ok").v(v, 4); return; }
  else if (c == "matrix") { const Mat &v = sig<Mat>(*e, "matrix").access(T); o.s("ok").m(v, 4); return; }
  else { o.s("?"); return; }
  o.s("ok");
}
int main() {
  classifier() = excname; char b[] = "/tmp/verif-reader-XXXXXX"; if (!mkdtemp(b)) return 3; dir = b;
  int r = run(reset, op); rmdir(b); return r; }
