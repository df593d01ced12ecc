#ifndef DGSHIM_DSETTER_H
#define DGSHIM_DSETTER_H
#include <dynamic-graph/command.h>
namespace dynamicgraph { namespace command {
template <class E, typename T> class DirectSetter : public Command {
 public:
  DirectSetter(E &e, T *p, const std::string &doc) : Command(e, boost::assign::list_of(ValueHelper<T>::TypeID), doc), p_(p) {}
 protected:
  virtual Value doExecute() { T v = getParameterValues()[0].value(); *p_ = v; return Value(); }
 private: T *p_;
};
template <class E, typename T> DirectSetter<E, T> *makeDirectSetter(E &e, T *p, const std::string &doc) { return new DirectSetter<E, T>(e, p, doc); }
inline std::string docDirectSetter(const std::string &name, const std::string &type) { return std::string("\nSet the ") + name + ".\n\nInput:\n - a " + type + ".\nVoid return.\n\n"; }
} }
#endif
