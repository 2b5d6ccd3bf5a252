#pragma once
#include "mem.h"
namespace traj { enum What { COST=1, SET=2, STATE=4, WARM=8, FEW=16 }; void all(int what); void memory(Same same); void loop(); }
