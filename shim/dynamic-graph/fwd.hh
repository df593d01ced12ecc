// API-faithful stand-in for dynamic-graph (the real library is not available
// offline).  Written from the published interface and documented semantics.
#ifndef DGSHIM_FWD_HH
#define DGSHIM_FWD_HH
#include <memory>
#include <string>
namespace dynamicgraph {
class ExceptionAbstract;
class PoolStorage;
class FactoryStorage;
class Entity;
class Logger;
class RealTimeLogger;
template <class Time> class SignalBase;
template <class Time> class TimeDependency;
template <class T, class Time> class Signal;
template <class T, class Time> class SignalPtr;
template <class T, class Time> class SignalTimeDependent;
template <typename T> struct signal_io;
namespace command {
class Value;
class Command;
}
}  // namespace dynamicgraph
#endif
