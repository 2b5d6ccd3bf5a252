// E02: the trajectory generator and the wheeled-robot generator in closed loop with an exact solver.
#include "mc.h"
#include "traj.h"
#include "zeb.h"
MC_CHECK(E02){ traj::loop(); zeb::loop(); }
