#include <iostream>
#include <cassert>
#define QPOASES_REAL_IS_FLOAT
#include <qpsolver/src/qpsolver_qpoases_float.cpp>
#include <mpc-walkgen/qpsolverfactory.h>
#define SCALAR float
#define MAKE makeQPSolverFloat
#define FAMILY "every sequence of solves, single precision"
#include "solver_run.h"
void solverFloat(){ all(); }
