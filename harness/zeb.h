#pragma once
#include "mem.h"
namespace zeb { enum What { COST=1, SUPPORT=2, MOTION=4, FRESH=8, STATE=16, WARM=32, FEW=64 }; void all(int what); void memory(Same same); void loop(); }
