#ifndef DGSHIM_DGETTER_H
#define DGSHIM_DGETTER_H
#include <dynamic-graph/command.h>
namespace dynamicgraph { namespace command {
template <class E, typename T> class DirectGetter : public Command {
 public:
  DirectGetter(E &e, T *p, const std::string &doc) : Command(e, std::vector<Value::Type>(), doc), p_(p) {}
 protected:
  virtual Value doExecute() { return Value(*p_); }
 private: T *p_;
};
template <class E, typename T> DirectGetter<E, T> *makeDirectGetter(E &e, T *p, const std::string &doc) { return new DirectGetter<E, T>(e, p, doc); }
inline std::string docDirectGetter(const std::string &name, const std::string &type) { return std::string("\nGet the ") + name + ".\n\nVoid input.\nReturn:\n - a " + type + ".\n\n"; }
} }
#endif
