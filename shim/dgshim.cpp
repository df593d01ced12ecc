#include <cstdlib>
#include <dynamic-graph/command.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/factory.h>
#include <dynamic-graph/pool.h>
namespace dynamicgraph {
const std::string ExceptionAbstract::EXCEPTION_NAME = "Abstract";
const std::string ExceptionSignal::EXCEPTION_NAME = "Signal";
const std::string ExceptionFactory::EXCEPTION_NAME = "Factory";
const std::string ExceptionTraces::EXCEPTION_NAME = "Traces";
Entity::Entity(const std::string &n) : name(n) {
  if (name.length() == 0) { static int c = 0; std::ostringstream os; os << "Entity_" << c++; name = os.str(); }
  entityRegistration();
}
Entity::~Entity() { for (auto &c : commandMap) delete c.second; entityDeregistration(); }
void Entity::entityRegistration() { PoolStorage::getInstance()->registerEntity(name, this); }
void Entity::entityDeregistration() { Entity *e; if (PoolStorage::getInstance()->existEntity(name, e) && e == this) PoolStorage::getInstance()->deregisterEntity(name); }
void Entity::signalRegistration(const SignalArray<int> &signals) {
  for (unsigned i = 0; i < signals.getSize(); ++i) {
    SignalBase<int> &sig = signals[i];
    std::string sn = sig.shortName();
    if (signalMap.count(sn)) throw ExceptionFactory(ExceptionFactory::SIGNAL_CONFLICT, "Another signal already defined with the same name. ", "Signal name is <%s>.", sn.c_str());
    signalMap[sn] = &sig;
  }
}
void Entity::signalDeregistration(const std::string &signame) {
  SignalMap::iterator s = signalMap.find(signame);
  if (s == signalMap.end()) throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "Could not find signal to be deregistered. ", "(Signal name is <%s>).", signame.c_str());
  signalMap.erase(s);
}
SignalBase<int> &Entity::getSignal(const std::string &signame) {
  SignalMap::iterator s = signalMap.find(signame);
  if (s == signalMap.end()) throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "The requested signal is not registered", ": %s", signame.c_str());
  return *s->second;
}
std::ostream &Entity::displaySignalList(std::ostream &os) const { return os; }
void Entity::addCommand(const std::string &inName, command::Command *command) {
  if (commandMap.count(inName)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Command " + inName + " already registered in Entity.");
  commandMap.insert(std::make_pair(inName, command));
}
command::Command *Entity::getNewStyleCommand(const std::string &n) {
  if (commandMap.find(n) == commandMap.end()) throw ExceptionFactory(ExceptionFactory::UNREFERED_FUNCTION, "Command <" + n + "> is not registered in Entity.");
  return commandMap[n];
}
PoolStorage *PoolStorage::instance_ = 0;
PoolStorage *PoolStorage::getInstance() { if (!instance_) instance_ = new PoolStorage; return instance_; }
void PoolStorage::destroy() { delete instance_; instance_ = NULL; }
PoolStorage::~PoolStorage() { while (!entityMap.empty()) { Entity *e = entityMap.begin()->second; deregisterEntity(entityMap.begin()); delete e; } instance_ = 0; }
void PoolStorage::registerEntity(const std::string &n, Entity *e) {
  if (entityMap.count(n)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Another entity already defined with the same name. ", "Entity name is <%s>.", n.c_str());
  entityMap[n] = e;
}
void PoolStorage::deregisterEntity(const std::string &n) {
  if (!entityMap.erase(n)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Entity not defined yet. ", "Entity name is <%s>.", n.c_str());
}
Entity &PoolStorage::getEntity(const std::string &n) {
  Entities::iterator e = entityMap.find(n);
  if (e == entityMap.end()) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity.", " (while calling <%s>)", n.c_str());
  return *e->second;
}
bool PoolStorage::existEntity(const std::string &n, Entity *&p) { Entities::iterator e = entityMap.find(n); if (e == entityMap.end()) return false; p = e->second; return true; }
SignalBase<int> &PoolStorage::getSignal(std::istringstream &is) {
  const int SIZE = 128; char buffer[SIZE];
  if (is.get(buffer, SIZE, '.')) { Entity &ent = getEntity(buffer); is.ignore(); std::string sn; is >> sn; return ent.getSignal(sn); }
  throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "The requested signal is not registered");
}
static FactoryStorage *fs = 0;
FactoryStorage *FactoryStorage::getInstance() { if (!fs) fs = new FactoryStorage; return fs; }
void FactoryStorage::destroy() { delete fs; fs = 0; }
void FactoryStorage::registerEntity(const std::string &n, EntityConstructor_ptr e) { entityMap[n] = e; }
Entity *FactoryStorage::newEntity(const std::string &c, const std::string &o) {
  if (!entityMap.count(c)) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity.", " (while calling new_entity <%s>)", c.c_str());
  return entityMap[c](o);
}
namespace command {
const Value::Type ValueHelper<bool>::TypeID, ValueHelper<unsigned>::TypeID, ValueHelper<int>::TypeID, ValueHelper<float>::TypeID,
    ValueHelper<double>::TypeID, ValueHelper<std::string>::TypeID, ValueHelper<Vector>::TypeID, ValueHelper<Eigen::MatrixXd>::TypeID,
    ValueHelper<Eigen::Matrix4d>::TypeID, ValueHelper<Values>::TypeID;
}
}  // namespace dynamicgraph
