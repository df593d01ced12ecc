// helpers for harnesses that drive entities
#ifndef VERIF_ENT_HH
#define VERIF_ENT_HH
#include "h.hh"
#include <dynamic-graph/all-commands.h>
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/factory.h>
#include <dynamic-graph/pool.h>
#include <sot/core/exception-abstract.hh>
#include <sot/core/pool.hh>
namespace vh {
namespace dg = dynamicgraph;
typedef dg::Vector Vec;
typedef dg::Matrix Mat;
typedef dg::command::Value Val;
inline std::map<std::pair<dg::Entity *, std::string>, std::shared_ptr<dg::SignalBase<int>>> &sources();
inline void wipe() { dg::PoolStorage::destroy(); dg::sot::PoolStorage::destroy(); sources().clear(); }
inline Val call(dg::Entity &e, const std::string &c, std::vector<Val> args = {}) {
  dg::command::Command *k = e.getNewStyleCommand(c);
  k->setParameterValues(args);
  return k->execute();
}
inline Vec vec(const J &j, double scale = 1) { Vec v(j.size()); for (size_t i = 0; i < j.size(); ++i) v(i) = j[i].n / scale; return v; }
inline Mat mat(const J &j, double scale = 1) {
  size_t r = j.size(), c = r ? j[0].size() : 0; Mat m(r, c);
  for (size_t i = 0; i < r; ++i) for (size_t k = 0; k < c; ++k) m(i, k) = j[i][k].n / scale; return m; }
template <class T> dg::Signal<T, int> &sig(dg::Entity &e, const std::string &n) {
  dg::Signal<T, int> *s = dynamic_cast<dg::Signal<T, int> *>(&e.getSignal(n));
  if (!s) throw std::runtime_error("harness: bad signal type " + n);
  return *s; }
// an input given as a constant, or by the computed output of something else
template <class T> struct Source : dg::SignalTimeDependent<T, int> {
  T v; Source(const std::string &n) : dg::Signal<T, int>("source::output(any)::" + n), dg::SignalTimeDependent<T, int>("source::output(any)::" + n), v() { this->setFunction(boost::bind(&Source::get, this, _1, _2)); }
  T &get(T &r, int) { r = v; return r; } };
inline std::map<std::pair<dg::Entity *, std::string>, std::shared_ptr<dg::SignalBase<int>>> &sources() { static std::map<std::pair<dg::Entity *, std::string>, std::shared_ptr<dg::SignalBase<int>>> m; return m; }
template <class T> void put(dg::Entity &e, const std::string &n, const T &v, bool computed) {
  dg::SignalPtr<T, int> *s = dynamic_cast<dg::SignalPtr<T, int> *>(&e.getSignal(n));
  if (!s) throw std::runtime_error("harness: bad signal type " + n);
  if (!computed) { *s = v; return; }
  std::shared_ptr<dg::SignalBase<int>> &b = sources()[std::make_pair(&e, n)];
  if (!b) b.reset(new Source<T>(n));
  Source<T> &c = dynamic_cast<Source<T> &>(*b); c.v = v; c.setReady(); s->plug(&c); }
// half of the periods, whether they are looked at one by one or two by two
inline bool odd(int t) { return (t ^ (t >> 1)) & 1; }
// something else in the network reads the inputs of an entity (they are shared): what they give is no longer new by itself
inline void poll(dg::Entity &e, int t) {
  for (auto &k : e.getSignalMap()) { dg::SignalBase<int> &s = *k.second, *p = s.isPlugged() ? s.getPluged() : nullptr; if (!p) continue;
    if (p == &s) { if (s.getReady()) { s.setReady(false); s.setTime(t); } }
    else for (auto &c : sources()) if (c.second.get() == p) p->recompute(t); } }
template <class E> E *make(const std::string &n) { return new E(n); }
// names of exceptions
inline bool excname(O &o) {
  o.s("exc");
  try { throw; }
  catch (const dg::sot::ExceptionAbstract &e) { dg::sot::ExceptionAbstract c(e); o.s("sot").i(c.getCode()); }
  catch (const dg::ExceptionAbstract &e) { o.s("dg"); }
  catch (const std::invalid_argument &e) { o.s("invalid_argument"); }
  catch (const std::length_error &e) { o.s("length_error"); }
  catch (const std::out_of_range &e) { o.s("out_of_range"); }
  catch (const std::logic_error &e) { o.s("logic_error"); }
  catch (const std::runtime_error &e) { o.s("runtime_error"); }
  catch (const std::exception &e) { o.s("std"); }
  catch (...) { o.s("other"); }
  return true; }
}  // namespace vh
#endif
