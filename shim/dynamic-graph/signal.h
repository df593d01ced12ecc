#ifndef DGSHIM_SIGNAL_H
#define DGSHIM_SIGNAL_H
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <string>
#include <dynamic-graph/signal-base.h>
#include <dynamic-graph/signal-caster.h>
#ifndef DGSHIM_NO_THREAD
#include <boost/thread.hpp>
#endif
namespace dynamicgraph {
template <class T, class Time>
class Signal : public SignalBase<Time> {
 public:
  using SignalBase<Time>::signalTime;
  using SignalBase<Time>::getName;
  typedef int *MutexPtr;
  typedef boost::mutex Mutex;
 protected:
  enum SignalType { CONSTANT, REFERENCE, REFERENCE_NON_CONST, FUNCTION };
  static const SignalType SIGNAL_TYPE_DEFAULT = CONSTANT;
  SignalType signalType;
  T Tcopy1, Tcopy2;
  T *Tcopy;
  bool copyInit;
  const T *Treference;
  T *TreferenceNonConst;
  boost::function2<T &, T &, Time> Tfunction;
  bool keepReference;
  static const bool KEEP_REFERENCE_DEFAULT = false;
  Mutex *providerMutex;
 public:
  using SignalBase<Time>::setReady;
  Signal(std::string name)
      : SignalBase<Time>(name), signalType(CONSTANT), Tcopy1(), Tcopy2(), Tcopy(&Tcopy1), copyInit(false), Treference(NULL),
        TreferenceNonConst(NULL), Tfunction(), keepReference(false), providerMutex(NULL) {}
  virtual ~Signal() {}
  virtual void get(std::ostream &value) const { signal_io<T>::disp(this->accessCopy(), value); }
  virtual void set(std::istringstream &value) { (*this) = signal_io<T>::cast(value); }
  virtual void trace(std::ostream &os) const { try { signal_io<T>::trace(this->accessCopy(), os); } DG_RETHROW }
  virtual inline void setConstant(const T &t) { signalType = CONSTANT; setTcopy(t); setReady(); }
  virtual inline void setConstantDefault() { setConstant(*Tcopy); }
  virtual inline void setReference(const T *t, Mutex *mutexref = NULL) {
    signalType = REFERENCE; Treference = t; providerMutex = mutexref; copyInit = false; setReady(); }
  virtual inline void setReferenceNonConstant(T *t, Mutex *mutexref = NULL) { setReference(t, mutexref); signalType = REFERENCE_NON_CONST; TreferenceNonConst = t; }
  virtual inline void setFunction(boost::function2<T &, T &, Time> t, Mutex *mutexref = NULL) {
    signalType = FUNCTION; Tfunction = t; providerMutex = mutexref; copyInit = false; setReady(); }
  inline bool getKeepReference() { return keepReference; }
  inline void setKeepReference(const bool &b) { keepReference = b; }
  inline void unsetReference() { setConstant(*Tcopy); }
  virtual const T &access(const Time &t) {
    switch (signalType) {
      case REFERENCE:
      case REFERENCE_NON_CONST: {
        if (NULL == providerMutex) { copyInit = true; setTcopy(*Treference); }
        else { if (providerMutex->try_lock()) { setTcopy(*Treference); copyInit = true; providerMutex->unlock(); } }
        signalTime = t; // see dynamic-graph: copy is taken at access time
        setReady(false);
        return accessCopy();
      }
      case FUNCTION: {
        if (NULL == providerMutex) { signalTime = t; Tfunction(getTwork(), t); return switchTcopy(); }
        if (providerMutex->try_lock()) { signalTime = t; Tfunction(getTwork(), t); providerMutex->unlock(); return switchTcopy(); }
        return accessCopy();
      }
      case CONSTANT:
      default:
        if (this->getReady()) { setReady(false); this->setTime(t); }
        return accessCopy();
    }
  }
  virtual inline void recompute(const Time &t) { access(t); }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual Signal<T, Time> &operator=(const T &t) {
    if (keepReference && (signalType == REFERENCE_NON_CONST)) { if (providerMutex) providerMutex->lock(); (*TreferenceNonConst) = t; if (providerMutex) providerMutex->unlock(); }
    else { setConstant(t); }
    return *this; }
  inline operator const T &() const { return accessCopy(); }
  virtual const T &accessCopy() const { return *Tcopy; }
  virtual void checkCompatibility() { throw Tcopy; }
  virtual std::ostream &display(std::ostream &os) const { os << "Sig:" << this->name << " (Type "; switch (signalType) { case CONSTANT: os << "Cst"; break; case REFERENCE: os << "Ref"; break; case REFERENCE_NON_CONST: os << "RefNonCst"; break; default: os << "Fun"; } return os << ")"; }
 protected:
  inline const T &setTcopy(const T &t) { if (Tcopy == &Tcopy1) { Tcopy2 = t; copyInit = true; Tcopy = &Tcopy2; return Tcopy2; } else { Tcopy1 = t; copyInit = true; Tcopy = &Tcopy1; return Tcopy1; } }
  inline T &getTwork() { return Tcopy == &Tcopy1 ? Tcopy2 : Tcopy1; }
  inline const T &getTwork() const { return Tcopy == &Tcopy1 ? Tcopy2 : Tcopy1; }
  inline const T &switchTcopy() { if (Tcopy == &Tcopy1) { Tcopy = &Tcopy2; return Tcopy2; } else { Tcopy = &Tcopy1; return Tcopy1; } }
};
}  // namespace dynamicgraph
#endif
