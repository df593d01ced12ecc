#ifndef DGSHIM_BIND_H
#define DGSHIM_BIND_H
#include <type_traits>
#include <utility>
#include <functional>
#include <boost/function.hpp>
#include <boost/bind.hpp>
#include <dynamic-graph/command.h>
namespace dynamicgraph { namespace command {
namespace shim {
template <class T> using Bare = typename std::remove_const<typename std::remove_reference<T>::type>::type;
template <class F> class FnCommand : public Command { F f_;
 public: FnCommand(Entity &e, const std::vector<Value::Type> &t, const std::string &d, F f) : Command(e, t, d), f_(f) {}
 protected: virtual Value doExecute() { return f_(getParameterValues()); } };
template <class F> Command *mk(Entity &e, const std::vector<Value::Type> &t, const std::string &d, F f) { return new FnCommand<F>(e, t, d, f); }
}
template <class E> Command *makeCommandVoid0(E &e, void (E::*f)(), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; (e.*f)(); return Value(); }); }
template <class E> Command *makeCommandVoid0(E &e, boost::function<void()> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; f(); return Value(); }); }
template <class E> Command *makeCommandVerbose0(E &e, void (E::*f)(std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; std::ostringstream os; (e.*f)(os); return Value(os.str()); }); }
template <class E> Command *makeCommandVerbose0(E &e, boost::function<void(std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; std::ostringstream os; f(os); return Value(os.str()); }); }
template <class E, class R> Command *makeCommandReturnType0(E &e, R (E::*f)(), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<R> r = (e.*f)(); return Value(r); }); }
template <class E, class R> Command *makeCommandReturnType0(E &e, R (E::*f)() const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<R> r = (e.*f)(); return Value(r); }); }
inline std::string docCommandVoid0(const std::string &doc) { return std::string("\n") + doc + "\n\n" + "Void input.\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose0(const std::string &doc) { return std::string("\n") + doc + "\n\n" + "Void input.\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType0(const std::string &doc) { return std::string("\n") + doc + "\n\n" + "Void input.\n" + "Return.\n\n"; }
inline std::string docCommandReturnType0(const std::string &doc, const std::string &b) { return std::string("\n") + doc + "\n\nReturns: " + b + ".\n\n"; }
template <class E, class T0> Command *makeCommandVoid1(E &e, void (E::*f)(T0), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); (e.*f)(a0); return Value(); }); }
template <class E, class T0> Command *makeCommandVoid1(E &e, boost::function<void(T0)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); f(a0); return Value(); }); }
template <class E, class T0> Command *makeCommandVerbose1(E &e, void (E::*f)(T0, std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); std::ostringstream os; (e.*f)(a0,os); return Value(os.str()); }); }
template <class E, class T0> Command *makeCommandVerbose1(E &e, boost::function<void(T0, std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); std::ostringstream os; f(a0,os); return Value(os.str()); }); }
template <class E, class R, class T0> Command *makeCommandReturnType1(E &e, R (E::*f)(T0), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<R> r = (e.*f)(a0); return Value(r); }); }
template <class E, class R, class T0> Command *makeCommandReturnType1(E &e, R (E::*f)(T0) const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<R> r = (e.*f)(a0); return Value(r); }); }
inline std::string docCommandVoid1(const std::string &doc, const std::string &t0) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose1(const std::string &doc, const std::string &t0) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType1(const std::string &doc, const std::string &t0) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + "Return.\n\n"; }
inline std::string docCommandReturnType1(const std::string &doc, const std::string &a, const std::string &b) { return std::string("\n") + doc + "\n\nInput:\n - a " + a + ".\nReturns: " + b + ".\n\n"; }
template <class E, class T0, class T1> Command *makeCommandVoid2(E &e, void (E::*f)(T0,T1), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); (e.*f)(a0,a1); return Value(); }); }
template <class E, class T0, class T1> Command *makeCommandVoid2(E &e, boost::function<void(T0,T1)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); f(a0,a1); return Value(); }); }
template <class E, class T0, class T1> Command *makeCommandVerbose2(E &e, void (E::*f)(T0, T1, std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); std::ostringstream os; (e.*f)(a0,a1,os); return Value(os.str()); }); }
template <class E, class T0, class T1> Command *makeCommandVerbose2(E &e, boost::function<void(T0, T1, std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); std::ostringstream os; f(a0,a1,os); return Value(os.str()); }); }
template <class E, class R, class T0, class T1> Command *makeCommandReturnType2(E &e, R (E::*f)(T0,T1), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<R> r = (e.*f)(a0,a1); return Value(r); }); }
template <class E, class R, class T0, class T1> Command *makeCommandReturnType2(E &e, R (E::*f)(T0,T1) const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<R> r = (e.*f)(a0,a1); return Value(r); }); }
inline std::string docCommandVoid2(const std::string &doc, const std::string &t0, const std::string &t1) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose2(const std::string &doc, const std::string &t0, const std::string &t1) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType2(const std::string &doc, const std::string &t0, const std::string &t1) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + "Return.\n\n"; }
template <class E, class T0, class T1, class T2> Command *makeCommandVoid3(E &e, void (E::*f)(T0,T1,T2), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); (e.*f)(a0,a1,a2); return Value(); }); }
template <class E, class T0, class T1, class T2> Command *makeCommandVoid3(E &e, boost::function<void(T0,T1,T2)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); f(a0,a1,a2); return Value(); }); }
template <class E, class T0, class T1, class T2> Command *makeCommandVerbose3(E &e, void (E::*f)(T0, T1, T2, std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); std::ostringstream os; (e.*f)(a0,a1,a2,os); return Value(os.str()); }); }
template <class E, class T0, class T1, class T2> Command *makeCommandVerbose3(E &e, boost::function<void(T0, T1, T2, std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); std::ostringstream os; f(a0,a1,a2,os); return Value(os.str()); }); }
template <class E, class R, class T0, class T1, class T2> Command *makeCommandReturnType3(E &e, R (E::*f)(T0,T1,T2), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2); return Value(r); }); }
template <class E, class R, class T0, class T1, class T2> Command *makeCommandReturnType3(E &e, R (E::*f)(T0,T1,T2) const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2); return Value(r); }); }
inline std::string docCommandVoid3(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose3(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType3(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + "Return.\n\n"; }
template <class E, class T0, class T1, class T2, class T3> Command *makeCommandVoid4(E &e, void (E::*f)(T0,T1,T2,T3), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); (e.*f)(a0,a1,a2,a3); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3> Command *makeCommandVoid4(E &e, boost::function<void(T0,T1,T2,T3)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); f(a0,a1,a2,a3); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3> Command *makeCommandVerbose4(E &e, void (E::*f)(T0, T1, T2, T3, std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); std::ostringstream os; (e.*f)(a0,a1,a2,a3,os); return Value(os.str()); }); }
template <class E, class T0, class T1, class T2, class T3> Command *makeCommandVerbose4(E &e, boost::function<void(T0, T1, T2, T3, std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); std::ostringstream os; f(a0,a1,a2,a3,os); return Value(os.str()); }); }
template <class E, class R, class T0, class T1, class T2, class T3> Command *makeCommandReturnType4(E &e, R (E::*f)(T0,T1,T2,T3), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3); return Value(r); }); }
template <class E, class R, class T0, class T1, class T2, class T3> Command *makeCommandReturnType4(E &e, R (E::*f)(T0,T1,T2,T3) const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3); return Value(r); }); }
inline std::string docCommandVoid4(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose4(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType4(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + "Return.\n\n"; }
template <class E, class T0, class T1, class T2, class T3, class T4> Command *makeCommandVoid5(E &e, void (E::*f)(T0,T1,T2,T3,T4), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); (e.*f)(a0,a1,a2,a3,a4); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3, class T4> Command *makeCommandVoid5(E &e, boost::function<void(T0,T1,T2,T3,T4)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); f(a0,a1,a2,a3,a4); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3, class T4> Command *makeCommandVerbose5(E &e, void (E::*f)(T0, T1, T2, T3, T4, std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); std::ostringstream os; (e.*f)(a0,a1,a2,a3,a4,os); return Value(os.str()); }); }
template <class E, class T0, class T1, class T2, class T3, class T4> Command *makeCommandVerbose5(E &e, boost::function<void(T0, T1, T2, T3, T4, std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); std::ostringstream os; f(a0,a1,a2,a3,a4,os); return Value(os.str()); }); }
template <class E, class R, class T0, class T1, class T2, class T3, class T4> Command *makeCommandReturnType5(E &e, R (E::*f)(T0,T1,T2,T3,T4), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3,a4); return Value(r); }); }
template <class E, class R, class T0, class T1, class T2, class T3, class T4> Command *makeCommandReturnType5(E &e, R (E::*f)(T0,T1,T2,T3,T4) const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3,a4); return Value(r); }); }
inline std::string docCommandVoid5(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose5(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType5(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + "Return.\n\n"; }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5> Command *makeCommandVoid6(E &e, void (E::*f)(T0,T1,T2,T3,T4,T5), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); (e.*f)(a0,a1,a2,a3,a4,a5); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5> Command *makeCommandVoid6(E &e, boost::function<void(T0,T1,T2,T3,T4,T5)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); f(a0,a1,a2,a3,a4,a5); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5> Command *makeCommandVerbose6(E &e, void (E::*f)(T0, T1, T2, T3, T4, T5, std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); std::ostringstream os; (e.*f)(a0,a1,a2,a3,a4,a5,os); return Value(os.str()); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5> Command *makeCommandVerbose6(E &e, boost::function<void(T0, T1, T2, T3, T4, T5, std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); std::ostringstream os; f(a0,a1,a2,a3,a4,a5,os); return Value(os.str()); }); }
template <class E, class R, class T0, class T1, class T2, class T3, class T4, class T5> Command *makeCommandReturnType6(E &e, R (E::*f)(T0,T1,T2,T3,T4,T5), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3,a4,a5); return Value(r); }); }
template <class E, class R, class T0, class T1, class T2, class T3, class T4, class T5> Command *makeCommandReturnType6(E &e, R (E::*f)(T0,T1,T2,T3,T4,T5) const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3,a4,a5); return Value(r); }); }
inline std::string docCommandVoid6(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose6(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType6(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + "Return.\n\n"; }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5, class T6> Command *makeCommandVoid7(E &e, void (E::*f)(T0,T1,T2,T3,T4,T5,T6), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); (e.*f)(a0,a1,a2,a3,a4,a5,a6); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5, class T6> Command *makeCommandVoid7(E &e, boost::function<void(T0,T1,T2,T3,T4,T5,T6)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); f(a0,a1,a2,a3,a4,a5,a6); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5, class T6> Command *makeCommandVerbose7(E &e, void (E::*f)(T0, T1, T2, T3, T4, T5, T6, std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); std::ostringstream os; (e.*f)(a0,a1,a2,a3,a4,a5,a6,os); return Value(os.str()); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5, class T6> Command *makeCommandVerbose7(E &e, boost::function<void(T0, T1, T2, T3, T4, T5, T6, std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); std::ostringstream os; f(a0,a1,a2,a3,a4,a5,a6,os); return Value(os.str()); }); }
template <class E, class R, class T0, class T1, class T2, class T3, class T4, class T5, class T6> Command *makeCommandReturnType7(E &e, R (E::*f)(T0,T1,T2,T3,T4,T5,T6), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3,a4,a5,a6); return Value(r); }); }
template <class E, class R, class T0, class T1, class T2, class T3, class T4, class T5, class T6> Command *makeCommandReturnType7(E &e, R (E::*f)(T0,T1,T2,T3,T4,T5,T6) const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3,a4,a5,a6); return Value(r); }); }
inline std::string docCommandVoid7(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5, const std::string &t6) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + " - a " + t6 + ".\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose7(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5, const std::string &t6) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + " - a " + t6 + ".\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType7(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5, const std::string &t6) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + " - a " + t6 + ".\n" + "Return.\n\n"; }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7> Command *makeCommandVoid8(E &e, void (E::*f)(T0,T1,T2,T3,T4,T5,T6,T7), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID,ValueHelper<shim::Bare<T7>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); shim::Bare<T7> a7 = v[7].value(); (e.*f)(a0,a1,a2,a3,a4,a5,a6,a7); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7> Command *makeCommandVoid8(E &e, boost::function<void(T0,T1,T2,T3,T4,T5,T6,T7)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID,ValueHelper<shim::Bare<T7>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); shim::Bare<T7> a7 = v[7].value(); f(a0,a1,a2,a3,a4,a5,a6,a7); return Value(); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7> Command *makeCommandVerbose8(E &e, void (E::*f)(T0, T1, T2, T3, T4, T5, T6, T7, std::ostream &), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID,ValueHelper<shim::Bare<T7>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); shim::Bare<T7> a7 = v[7].value(); std::ostringstream os; (e.*f)(a0,a1,a2,a3,a4,a5,a6,a7,os); return Value(os.str()); }); }
template <class E, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7> Command *makeCommandVerbose8(E &e, boost::function<void(T0, T1, T2, T3, T4, T5, T6, T7, std::ostream &)> f, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID,ValueHelper<shim::Bare<T7>>::TypeID}, doc, [f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); shim::Bare<T7> a7 = v[7].value(); std::ostringstream os; f(a0,a1,a2,a3,a4,a5,a6,a7,os); return Value(os.str()); }); }
template <class E, class R, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7> Command *makeCommandReturnType8(E &e, R (E::*f)(T0,T1,T2,T3,T4,T5,T6,T7), const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID,ValueHelper<shim::Bare<T7>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); shim::Bare<T7> a7 = v[7].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3,a4,a5,a6,a7); return Value(r); }); }
template <class E, class R, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7> Command *makeCommandReturnType8(E &e, R (E::*f)(T0,T1,T2,T3,T4,T5,T6,T7) const, const std::string &doc) { return shim::mk(e, std::vector<Value::Type>{ValueHelper<shim::Bare<T0>>::TypeID,ValueHelper<shim::Bare<T1>>::TypeID,ValueHelper<shim::Bare<T2>>::TypeID,ValueHelper<shim::Bare<T3>>::TypeID,ValueHelper<shim::Bare<T4>>::TypeID,ValueHelper<shim::Bare<T5>>::TypeID,ValueHelper<shim::Bare<T6>>::TypeID,ValueHelper<shim::Bare<T7>>::TypeID}, doc, [&e, f](const std::vector<Value> &v) -> Value { (void)v; shim::Bare<T0> a0 = v[0].value(); shim::Bare<T1> a1 = v[1].value(); shim::Bare<T2> a2 = v[2].value(); shim::Bare<T3> a3 = v[3].value(); shim::Bare<T4> a4 = v[4].value(); shim::Bare<T5> a5 = v[5].value(); shim::Bare<T6> a6 = v[6].value(); shim::Bare<T7> a7 = v[7].value(); shim::Bare<R> r = (e.*f)(a0,a1,a2,a3,a4,a5,a6,a7); return Value(r); }); }
inline std::string docCommandVoid8(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5, const std::string &t6, const std::string &t7) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + " - a " + t6 + ".\n" + " - a " + t7 + ".\n" + "Void return.\n\n"; }
inline std::string docCommandVerbose8(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5, const std::string &t6, const std::string &t7) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + " - a " + t6 + ".\n" + " - a " + t7 + ".\n" + "Return a string.\n\n"; }
template <class R> inline std::string docCommandReturnType8(const std::string &doc, const std::string &t0, const std::string &t1, const std::string &t2, const std::string &t3, const std::string &t4, const std::string &t5, const std::string &t6, const std::string &t7) { return std::string("\n") + doc + "\n\n" + "Input:\n" + " - a " + t0 + ".\n" + " - a " + t1 + ".\n" + " - a " + t2 + ".\n" + " - a " + t3 + ".\n" + " - a " + t4 + ".\n" + " - a " + t5 + ".\n" + " - a " + t6 + ".\n" + " - a " + t7 + ".\n" + "Return.\n\n"; }
} }
#endif
