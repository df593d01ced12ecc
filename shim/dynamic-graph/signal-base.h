#ifndef DGSHIM_SIGNAL_BASE_H
#define DGSHIM_SIGNAL_BASE_H
#include <sstream>
#include <string>
#include <typeinfo>
#include <boost/noncopyable.hpp>
#include <dynamic-graph/exception-abstract.h>
#include <dynamic-graph/debug.h>
namespace dynamicgraph {
template <class Time>
class SignalBase : private boost::noncopyable {
 public:
  explicit SignalBase(std::string name = "") : name(name), signalTime(), ready(false) {}
  virtual ~SignalBase() {}
  virtual const Time &getTime() const { return signalTime; }
  virtual void setTime(const Time &t) { signalTime = t; }
  const bool &getReady() const { return ready; }
  const std::string &getName() const { return name; }
  void getClassName(std::string &n) const { n = typeid(this).name(); }
  virtual void setPeriodTime(const Time &) {}
  virtual Time getPeriodTime() const { return 1; }
  virtual void addDependency(const SignalBase<Time> &) {}
  virtual void removeDependency(const SignalBase<Time> &) {}
  virtual void clearDependencies() {}
  virtual bool needUpdate(const Time &) const { return ready; }
  inline void setReady(const bool sready = true) { ready = sready; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &displayDependencies(std::ostream &os, const int = -1, std::string = "", std::string = "", std::string = "") const { os << name; return os; }
  virtual std::ostream &display(std::ostream &os) const { os << "Sig:" << name; return os; }
  virtual void plug(SignalBase<Time> *sigarg) { DG_THROW ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Plug-in operation not possible with this signal. ", "(while trying to plug %s on %s).", sigarg->getName().c_str(), this->getName().c_str()); }
  virtual void unplug() { DG_THROW ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Plug-in operation not possible with this signal. "); }
  virtual bool isPlugged() const { return false; }
  virtual SignalBase<Time> *getPluged() const { return NULL; }
  virtual void setConstantDefault() { DG_THROW ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Set constant operation not possible with this signal. "); }
  virtual inline void ExtractNodeAndLocalNames(std::string &l, std::string &n) const { l = shortName(); n = name; }
  virtual void recompute(const Time &) { DG_THROW ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Recompute operation not possible with this signal. "); }
  virtual void set(std::istringstream &) { DG_THROW ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Set operation not possible with this signal. "); }
  virtual void get(std::ostream &) const { DG_THROW ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Get operation not possible with this signal. "); }
  virtual void trace(std::ostream &) const {}
  virtual void checkCompatibility() { DG_THROW ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "checkCompatibility operation not possible with this signal. "); }
  std::string shortName() const { std::size_t p = name.rfind(':'); return p == std::string::npos ? name : name.substr(p + 1); }
 protected:
  std::string name;
  Time signalTime;
  bool ready;
};
template <class Time> std::ostream &operator<<(std::ostream &os, const SignalBase<Time> &s) { return s.display(os); }
}  // namespace dynamicgraph
#endif
