#pragma once
#include <dynamic-graph/exception-abstract.h>
