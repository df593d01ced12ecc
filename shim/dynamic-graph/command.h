#ifndef DGSHIM_COMMAND_H
#define DGSHIM_COMMAND_H
#include <string>
#include <vector>
#include <boost/assign/list_of.hpp>
#include <dynamic-graph/value.h>
namespace dynamicgraph { class Entity; namespace command {
class Command {
 public:
  virtual ~Command() {}
  Command(Entity &entity, const std::vector<Value::Type> &valueTypes, const std::string &docstring) : owner_(entity), typeVector_(valueTypes), docstring_(docstring) {}
  const std::vector<Value::Type> &valueTypes() const { return typeVector_; }
  void setParameterValues(const std::vector<Value> &values) {
    if (values.size() != typeVector_.size()) throw ExceptionAbstract(ExceptionAbstract::TOOLS, "wrong number of parameters");
    valueVector_ = values; }
  const std::vector<Value> &getParameterValues() const { return valueVector_; }
  Value execute() { return doExecute(); }
  Entity &owner() { return owner_; }
  std::string getDocstring() const { return docstring_; }
 protected:
  virtual Value doExecute() = 0;
 private:
  Entity &owner_; std::vector<Value::Type> typeVector_; std::vector<Value> valueVector_; std::string docstring_;
};
} }
#endif
