#pragma once
#include <dynamic-graph/entity-helper.h>
#include <dynamic-graph/signal-ptr.h>
#include <dynamic-graph/signal-time-dependent.h>
#define DECLARE_SIGNAL_IN(name, type) ::dynamicgraph::SignalPtr<type, int> m_##name##SIN
#define CONSTRUCT_SIGNAL_IN(name, type) m_##name##SIN(NULL, getClassName() + "(" + getName() + ")::input(" + #type + ")::" + #name)
#define SIGNAL_OUT_FUNCTION(name) name##SOUT_function
#define DECLARE_SIGNAL_OUT_FUNCTION(name, type) type &SIGNAL_OUT_FUNCTION(name)(type &, int)
#define DEFINE_SIGNAL_OUT_FUNCTION(name, type) type &EntityClassName::SIGNAL_OUT_FUNCTION(name)(type & s, int iter)
#define DECLARE_SIGNAL_OUT(name, type) public: ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SOUT; protected: DECLARE_SIGNAL_OUT_FUNCTION(name, type)
#define CONSTRUCT_SIGNAL_OUT(name, type, dep) m_##name##SOUT(boost::bind(&EntityClassName::SIGNAL_OUT_FUNCTION(name), this, _1, _2), dep, getClassName() + "(" + getName() + ")::output(" + #type + ")::" + #name)
#define SIGNAL_INNER_FUNCTION(name) name##SINNER_function
#define DECLARE_SIGNAL_INNER_FUNCTION(name, type) type &SIGNAL_INNER_FUNCTION(name)(type &, int)
#define DEFINE_SIGNAL_INNER_FUNCTION(name, type) type &EntityClassName::SIGNAL_INNER_FUNCTION(name)(type & s, int iter)
#define DECLARE_SIGNAL_INNER(name, type) public: ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SINNER; protected: DECLARE_SIGNAL_INNER_FUNCTION(name, type)
#define CONSTRUCT_SIGNAL_INNER(name, type, dep) m_##name##SINNER(boost::bind(&EntityClassName::SIGNAL_INNER_FUNCTION(name), this, _1, _2), dep, getClassName() + "(" + getName() + ")::inner(" + #type + ")::" + #name)
