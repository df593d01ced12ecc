#ifndef DGSHIM_SETTER_H
#define DGSHIM_SETTER_H
#include <dynamic-graph/command.h>
namespace dynamicgraph { namespace command {
template <class E, typename T> class Setter : public Command {
 public:
  typedef void (E::*SetterMethod)(const T &);
  Setter(E &entity, SetterMethod m, const std::string &doc) : Command(entity, boost::assign::list_of(ValueHelper<T>::TypeID), doc), m_(m) {}
 protected:
  virtual Value doExecute() { T v = getParameterValues()[0].value(); E &e = static_cast<E &>(owner()); (e.*m_)(v); return Value(); }
 private: SetterMethod m_;
};
} }
#endif
