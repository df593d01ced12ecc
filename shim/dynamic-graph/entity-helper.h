#pragma once
#include <dynamic-graph/entity.h>
namespace dynamicgraph {
template <typename Ent> struct EntityHelper {
  typedef Ent EntityClassName;
  EntityHelper() {}
};
}
