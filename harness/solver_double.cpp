#include <iostream>
#include <cassert>
#include <qpsolver/src/qpsolver_qpoases_double.cpp>
#include <src/qpsolverfactory.cpp>
#define SCALAR double
#define MAKE makeQPSolverDouble
#define FAMILY "every sequence of solves, double precision"
#include "solver_run.h"
void solverFloat();
MC_CHECK(S01){ all(); solverFloat(); }
