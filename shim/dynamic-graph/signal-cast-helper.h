#pragma once
#include <dynamic-graph/signal-caster.h>
#define DG_ADD_CASTER(TYPE, ID) static int dgshim_caster_##ID __attribute__((unused)) = 0
namespace dynamicgraph { template <typename T> struct DefaultCastRegisterer { DefaultCastRegisterer() {} }; }
