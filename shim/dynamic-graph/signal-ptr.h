#ifndef DGSHIM_SIGPTR_H
#define DGSHIM_SIGPTR_H
#include <dynamic-graph/signal.h>
namespace dynamicgraph {
template <class T, class Time>
class SignalPtr : public virtual Signal<T, Time> {
 public:
  using Signal<T, Time>::signalTime;
  using Signal<T, Time>::getName;
  using SignalBase<Time>::setReady;
 protected:
  Signal<T, Time> *signalPtr;
  bool modeNoThrow;
  bool transmitAbstract;
  SignalBase<Time> *abstractTransmitter;
  inline bool isAbstractPluged() const { return ((NULL != signalPtr) || (transmitAbstract)); }
  inline bool autoref() const { return ((!transmitAbstract) && (this == signalPtr)); }
 public:
  SignalPtr(Signal<T, Time> *ptr, std::string name = "") : Signal<T, Time>(name), signalPtr(NULL), modeNoThrow(false), transmitAbstract(false), abstractTransmitter(NULL) { if (ptr) plug(ptr); }
  virtual ~SignalPtr() { signalPtr = NULL; }
  Signal<T, Time> *getPtr() {
    if (!isPlugged()) DG_THROW ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set.", " (in signal <%s>)", getName().c_str());
    return signalPtr; }
  const Signal<T, Time> *getPtr() const {
    if (!isPlugged()) DG_THROW ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set.", " (in signal <%s>)", getName().c_str());
    return signalPtr; }
  SignalBase<Time> *getAbstractPtr() { if (!isAbstractPluged()) DG_THROW ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set.", " (in signal <%s>)", getName().c_str());
    return transmitAbstract ? abstractTransmitter : signalPtr; }
  const SignalBase<Time> *getAbstractPtr() const { if (!isAbstractPluged()) DG_THROW ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set.", " (in signal <%s>)", getName().c_str());
    return transmitAbstract ? abstractTransmitter : signalPtr; }
  virtual void plug(SignalBase<Time> *unknown_ref) {
    if (!unknown_ref) { signalPtr = NULL; transmitAbstract = false; abstractTransmitter = NULL; return; }
    Signal<T, Time> *ref = dynamic_cast<Signal<T, Time> *>(unknown_ref);
    if (NULL == ref) DG_THROW ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Compl. Uncompatible types in plug.", "(while trying to plug <%s> on <%s>)", unknown_ref->getName().c_str(), this->getName().c_str());
    signalPtr = ref; transmitAbstract = false; }
  virtual void unplug() { plug(NULL); }
  virtual bool isPlugged() const { return (NULL != signalPtr); }
  virtual SignalBase<Time> *getPluged() const { return signalPtr; }
  virtual bool needUpdate(const Time &t) const {
    if ((autoref()) || (!isAbstractPluged())) return Signal<T, Time>::needUpdate(t);
    return getAbstractPtr()->needUpdate(t); }
  virtual const Time &getTime() const { if ((isAbstractPluged()) && (!autoref())) return getAbstractPtr()->getTime(); return Signal<T, Time>::getTime(); }
  virtual void setPeriodTime(const Time &p) { if (isAbstractPluged() && !autoref()) getAbstractPtr()->setPeriodTime(p); }
  virtual Time getPeriodTime() const { if (isAbstractPluged() && !autoref()) return getAbstractPtr()->getPeriodTime(); return 1; }
  virtual inline void setConstant(const T &t) { plug(this); Signal<T, Time>::setConstant(t); }
  virtual inline void setConstantDefault(const T &t) { if (!isAbstractPluged()) setConstant(t); }
  virtual inline void setConstantDefault() { setConstantDefault(Signal<T, Time>::accessCopy()); }
  virtual inline void setReference(const T *t, typename Signal<T, Time>::Mutex *m = NULL) { plug(this); Signal<T, Time>::setReference(t, m); }
  virtual inline void setReferenceNonConstant(T *t, typename Signal<T, Time>::Mutex *m = NULL) { plug(this); Signal<T, Time>::setReferenceNonConstant(t, m); }
  virtual inline void setFunction(boost::function2<T &, T &, Time> t, typename Signal<T, Time>::Mutex *m = NULL) { plug(this); Signal<T, Time>::setFunction(t, m); }
  virtual inline const T &operator()(const Time &t) { return access(t); }
  virtual const T &access(const Time &t) {
    if (modeNoThrow && (!isPlugged()) && Signal<T, Time>::copyInit) return Signal<T, Time>::accessCopy();
    if (autoref()) return Signal<T, Time>::access(t);
    return getPtr()->access(t); }
  virtual void recompute(const Time &t) { if (isAbstractPluged() && !autoref()) getAbstractPtr()->recompute(t); }
  virtual const T &accessCopy() const {
    if (modeNoThrow && (!isPlugged()) && Signal<T, Time>::copyInit) return Signal<T, Time>::accessCopy();
    if (autoref()) return Signal<T, Time>::accessCopy();
    return getPtr()->accessCopy(); }
  virtual inline Signal<T, Time> &operator=(const T &t) { return Signal<T, Time>::operator=(t); }
  inline operator bool() const { return isPlugged(); }
};
}  // namespace dynamicgraph
#endif
