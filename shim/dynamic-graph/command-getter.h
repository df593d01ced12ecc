#ifndef DGSHIM_GETTER_H
#define DGSHIM_GETTER_H
#include <dynamic-graph/command.h>
namespace dynamicgraph { namespace command {
template <class E, typename T> class Getter : public Command {
 public:
  typedef T (E::*GetterMethod)() const;
  Getter(E &entity, GetterMethod m, const std::string &doc) : Command(entity, std::vector<Value::Type>(), doc), m_(m) {}
 protected:
  virtual Value doExecute() { E &e = static_cast<E &>(owner()); T v = (e.*m_)(); return Value(v); }
 private: GetterMethod m_;
};
} }
#endif
