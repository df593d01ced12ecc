#ifndef DGSHIM_FACTORY_H
#define DGSHIM_FACTORY_H
#include <map>
#include <string>
#include <vector>
#include <dynamic-graph/entity.h>
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_NAME(CLASSTYPE, CLASSNAME, ID) \
  extern "C" { ::dynamicgraph::Entity *EntityMaker_##ID(const std::string &objname) { return new CLASSTYPE(objname); } \
  ::dynamicgraph::EntityRegisterer reg##ID(CLASSNAME, &EntityMaker_##ID); } struct e_n_d__w_i_t_h__s_e_m_i_c_o_l_o_n
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(CLASSTYPE, CLASSNAME) \
  const std::string CLASSTYPE::CLASS_NAME = CLASSNAME; \
  DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_NAME(CLASSTYPE, CLASSNAME, CLASSTYPE)
namespace dynamicgraph {
class FactoryStorage {
 public:
  typedef Entity *(*EntityConstructor_ptr)(const std::string &);
  typedef std::map<std::string, EntityConstructor_ptr> EntityMap;
  static FactoryStorage *getInstance();
  static void destroy();
  void registerEntity(const std::string &name, EntityConstructor_ptr ent);
  void deregisterEntity(const std::string &n) { entityMap.erase(n); }
  Entity *newEntity(const std::string &classname, const std::string &objname);
  bool existEntity(const std::string &n) { return entityMap.count(n) > 0; }
  void getEntityClassList(std::vector<std::string> &l) { for (auto &e : entityMap) l.push_back(e.first); }
 private:
  EntityMap entityMap;
};
class EntityRegisterer {
 public:
  EntityRegisterer(const std::string &n, FactoryStorage::EntityConstructor_ptr maker) : n(n) { FactoryStorage::getInstance()->registerEntity(n, maker); }
  ~EntityRegisterer() {}
 private: std::string n;
};
}  // namespace dynamicgraph
#endif
