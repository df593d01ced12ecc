#ifndef DGSHIM_POOL_H
#define DGSHIM_POOL_H
#include <map>
#include <sstream>
#include <string>
#include <dynamic-graph/fwd.hh>
#include <dynamic-graph/signal-base.h>
#include <dynamic-graph/exception-factory.h>
namespace dynamicgraph {
class PoolStorage {
 public:
  typedef std::map<std::string, Entity *> Entities;
  static PoolStorage *getInstance();
  static void destroy();
  void registerEntity(const std::string &entname, Entity *ent);
  void deregisterEntity(const std::string &entname);
  void deregisterEntity(const Entities::iterator &entity) { entityMap.erase(entity); }
  Entity &getEntity(const std::string &name);
  const Entities &getEntityMap() const { return entityMap; }
  bool existEntity(const std::string &name) { return entityMap.count(name) > 0; }
  bool existEntity(const std::string &name, Entity *&ptr);
  void clearPlugin(const std::string &) {}
  SignalBase<int> &getSignal(std::istringstream &sigpath);
  void writeGraph(const std::string &) {}
  void writeCompletionList(std::ostream &) {}
  ~PoolStorage();
 private:
  PoolStorage() {}
  Entities entityMap;
  static PoolStorage *instance_;
};
}  // namespace dynamicgraph
#endif
