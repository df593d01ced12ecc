#ifndef DGSHIM_ENTITY_H
#define DGSHIM_ENTITY_H
#include <list>
#include <map>
#include <string>
#include <dynamic-graph/fwd.hh>
#include <dynamic-graph/exception-abstract.h>
#include <dynamic-graph/logger.h>
#include <dynamic-graph/real-time-logger-def.h>
#include <dynamic-graph/signal-array.h>
#include <dynamic-graph/signal-base.h>
#define DYNAMIC_GRAPH_ENTITY_DECL() \
 public: \
  virtual const std::string &getClassName() const { return CLASS_NAME; } \
  static const std::string CLASS_NAME
#define DYNAMIC_GRAPH_ENTITY_DEBUG(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_DEBUG)
#define DYNAMIC_GRAPH_ENTITY_INFO(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_INFO)
#define DYNAMIC_GRAPH_ENTITY_WARNING(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_WARNING)
#define DYNAMIC_GRAPH_ENTITY_ERROR(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_ERROR)
#define DYNAMIC_GRAPH_ENTITY_DEBUG_STREAM(e) DYNAMIC_GRAPH_ENTITY_DEBUG(e)
#define DYNAMIC_GRAPH_ENTITY_INFO_STREAM(e) DYNAMIC_GRAPH_ENTITY_INFO(e)
#define DYNAMIC_GRAPH_ENTITY_WARNING_STREAM(e) DYNAMIC_GRAPH_ENTITY_WARNING(e)
#define DYNAMIC_GRAPH_ENTITY_ERROR_STREAM(e) DYNAMIC_GRAPH_ENTITY_ERROR(e)
namespace dynamicgraph {
namespace command { class Command; }
class Entity {
 public:
  typedef std::map<const std::string, command::Command *> CommandMap_t;
  typedef std::map<std::string, SignalBase<int> *> SignalMap;
  explicit Entity(const std::string &name);
  virtual ~Entity();
  const std::string &getName() const { return name; }
  virtual const std::string &getClassName() const = 0;
  virtual std::string getDocString() const { return "No header documentation"; }
  bool hasSignal(const std::string &signame) const { return signalMap.count(signame) > 0; }
  SignalBase<int> &getSignal(const std::string &signalName);
  const SignalBase<int> &getSignal(const std::string &signalName) const { return const_cast<Entity *>(this)->getSignal(signalName); }
  std::ostream &displaySignalList(std::ostream &os) const;
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &writeCompletionList(std::ostream &os) const { return os; }
  virtual void display(std::ostream &os) const { os << this->getClassName(); }
  virtual SignalBase<int> *test() { return 0; }
  virtual void test2(SignalBase<int> *) {}
  const std::string &getCommandList() const;
  CommandMap_t getNewStyleCommandMap() { return commandMap; }
  command::Command *getNewStyleCommand(const std::string &cmdName);
  SignalMap getSignalMap() const { return signalMap; }
  Logger &logger() { return logger_; }
  const Logger &logger() const { return logger_; }
  void setLoggerVerbosityLevel(LoggerVerbosity lv) { logger_.setVerbosity(lv); }
  LoggerVerbosity getLoggerVerbosityLevel() { return logger_.getVerbosity(); }
  bool setTimeSample(double t) { return logger_.setTimeSample(t); }
  void sendMsg(const std::string &msg, MsgType t = MSG_TYPE_INFO, const std::string &l = "") { logger_.sendMsg(msg, t, l); }
 protected:
  void addCommand(const std::string &name, command::Command *command);
  void entityRegistration();
  void entityDeregistration();
  void signalRegistration(const SignalArray<int> &signals);
  void signalDeregistration(const std::string &name);
  std::string name;
  SignalMap signalMap;
  CommandMap_t commandMap;
  Logger logger_;
};
inline std::ostream &operator<<(std::ostream &os, const Entity &ent) { ent.display(os); return os; }
}  // namespace dynamicgraph
#endif
