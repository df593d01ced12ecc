#ifndef DGSHIM_TIMEDEP_H
#define DGSHIM_TIMEDEP_H
#include <list>
#include <dynamic-graph/signal-array.h>
namespace dynamicgraph {
template <class Time> class TimeDependency {
 public:
  enum DependencyType { TIME_DEPENDENT, BOOL_DEPENDENT, ALWAYS_READY };
 protected:
  SignalBase<Time> &leader;
 public:
  mutable Time lastAskForUpdate;
  typedef std::list<const SignalBase<Time> *> Dependencies;
  static const DependencyType DEPENDENCY_TYPE_DEFAULT = TIME_DEPENDENT;
  Dependencies dependencies;
  bool updateFromAllChildren;
  static const bool ALL_READY_DEFAULT = false;
  DependencyType dependencyType;
  Time periodTime;
  static const Time PERIOD_TIME_DEFAULT = 1;
  TimeDependency(SignalBase<Time> *sig, const DependencyType dep = DEPENDENCY_TYPE_DEFAULT)
      : leader(*sig), lastAskForUpdate(), dependencies(), updateFromAllChildren(false), dependencyType(dep), periodTime(1) {}
  TimeDependency(SignalBase<Time> *sig, const SignalArray_const<Time> &arr, const DependencyType dep = DEPENDENCY_TYPE_DEFAULT)
      : leader(*sig), lastAskForUpdate(), dependencies(), updateFromAllChildren(false), dependencyType(dep), periodTime(1) { addDependencies(arr); }
  virtual ~TimeDependency() {}
  void addDependencies(const SignalArray_const<Time> &arr) { for (unsigned i = 0; i < arr.getSize(); ++i) addDependency(arr[i]); }
  void addDependency(const SignalBase<Time> &sig) { dependencies.push_front(&sig); }
  void removeDependency(const SignalBase<Time> &sig) { dependencies.remove(&sig); }
  void clearDependency() { dependencies.clear(); }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  std::ostream &displayDependencies(std::ostream &os, const int, std::string space, std::string next1, std::string) const {
    leader.SignalBase<Time>::displayDependencies(os << space << next1); return os; }
  bool needUpdate(const Time &t1) const {
    bool res = leader.getReady();
    switch (dependencyType) {
      case TIME_DEPENDENT: {
        if ((!res) && ((t1 / periodTime) > (leader.getTime() / periodTime))) {
          for (typename Dependencies::const_iterator it = dependencies.begin(); it != dependencies.end(); ++it) {
            const SignalBase<Time> &sig = **it;
            if ((sig.getTime() > leader.getTime()) || (sig.needUpdate(t1))) { res = true; if (!updateFromAllChildren) break; }
          }
        }
        break;
      }
      case BOOL_DEPENDENT: {
        if ((!res) && (lastAskForUpdate)) { res = true; }
        else {
          for (typename Dependencies::const_iterator it = dependencies.begin(); it != dependencies.end(); ++it)
            if ((*it)->needUpdate(t1)) { res = true; if (!updateFromAllChildren) break; }
        }
        break;
      }
      case ALWAYS_READY: { res = true; break; }
    }
    lastAskForUpdate = res;
    return res;
  }
  void setDependencyType(DependencyType dep) { dependencyType = dep; }
  void setNeedUpdateFromAllChildren(const bool b = true) { updateFromAllChildren = b; }
  bool getNeedUpdateFromAllChildren() const { return updateFromAllChildren; }
  void setPeriodTime(const Time &p) { periodTime = p; }
  Time getPeriodTime() const { return periodTime; }
};
}  // namespace dynamicgraph
#endif
