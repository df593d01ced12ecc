#pragma once
#include <dynamic-graph/entity.h>
