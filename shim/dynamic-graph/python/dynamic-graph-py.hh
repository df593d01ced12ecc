#pragma once
#include <dynamic-graph/python/interpreter.hh>
