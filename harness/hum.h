#pragma once
#include "mem.h"
namespace hum { enum What { COST=1, COP=2, STEPS=4, STATE=8, SIZES=16, WARM=32, FEW=64 }; void all(int what); void memory(Same same); }
