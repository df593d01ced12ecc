#ifndef DGSHIM_STD_H
#define DGSHIM_STD_H
#include <dynamic-graph/signal.h>
#include <dynamic-graph/time-dependency.h>
#define SOT_INIT_SIGNAL_NONE
namespace dynamicgraph {
template <class T, class Time>
class SignalTimeDependent : public virtual Signal<T, Time>, public TimeDependency<Time> {
 protected:
  const T &accessIfUpdated();
 public:
  SignalTimeDependent(std::string name = "") : Signal<T, Time>(name), TimeDependency<Time>(this) {}
  SignalTimeDependent(const SignalArray_const<Time> &arr, std::string name = "") : Signal<T, Time>(name), TimeDependency<Time>(this, arr) {}
  SignalTimeDependent(boost::function2<T &, T &, Time> t, const SignalArray_const<Time> &sig, std::string name = "")
      : Signal<T, Time>(name), TimeDependency<Time>(this, sig) { this->setFunction(t); }
  virtual ~SignalTimeDependent() {}
  inline const T &operator()(const Time &t1) { return access(t1); }
  const T &access(const Time &t1) {
    const bool up = TimeDependency<Time>::needUpdate(t1);
    if (up) {
      TimeDependency<Time>::lastAskForUpdate = false;
      const T &Tres = Signal<T, Time>::access(t1);
      SignalBase<Time>::setReady(false);
      return Tres;
    }
    return Signal<T, Time>::accessCopy();
  }
  Signal<T, Time> &operator=(const T &t) { return Signal<T, Time>::operator=(t); }
  virtual void addDependency(const SignalBase<Time> &sig) { TimeDependency<Time>::addDependency(sig); }
  virtual void removeDependency(const SignalBase<Time> &sig) { TimeDependency<Time>::removeDependency(sig); }
  virtual void clearDependencies() { TimeDependency<Time>::clearDependency(); }
  virtual void setPeriodTime(const Time &p) { TimeDependency<Time>::setPeriodTime(p); }
  virtual Time getPeriodTime() const { return TimeDependency<Time>::getPeriodTime(); }
  virtual bool needUpdate(const Time &t) const { return TimeDependency<Time>::needUpdate(t); }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &displayDependencies(std::ostream &os, const int d = -1, std::string s = "", std::string n1 = "", std::string n2 = "") const { return TimeDependency<Time>::displayDependencies(os, d, s, n1, n2); }
};
}  // namespace dynamicgraph
#endif
