#pragma once
#include <pinocchio/fwd.hpp>
