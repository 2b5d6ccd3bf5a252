// Stand-in for qpOASES: records what it is asked and answers as the explorer decides.
#pragma once
#include <vector>
#include <string>
namespace qpOASES
{
#ifdef QPOASES_REAL_IS_FLOAT
typedef float real_t;
inline namespace single_precision {
#else
typedef double real_t;
inline namespace double_precision {
#endif
enum returnValue { TERMINAL_LIST_ELEMENT=-1, SUCCESSFUL_RETURN=0, RET_DIV_BY_ZERO=1, RET_MAX_NWSR_REACHED=64, RET_INIT_FAILED=33, RET_INIT_FAILED_CHOLESKY=34, RET_INIT_FAILED_HOTSTART=36, RET_INIT_FAILED_INFEASIBILITY=37, RET_INIT_FAILED_UNBOUNDEDNESS=38, RET_HOTSTART_STOPPED_INFEASIBILITY=61, RET_QP_INFEASIBLE=56, RET_QP_NOT_SOLVED=70 };
enum PrintLevel { PL_DEBUG_ITER=-2, PL_TABULAR=-1, PL_NONE=0, PL_LOW=1, PL_MEDIUM=2, PL_HIGH=3 };
typedef int int_t;
class QProblem;
struct Event { QProblem* who; int nV,nC; bool hot; int nWSR; std::vector<real_t> H,g,A,lb,ub,lbA,ubA; };
struct Script { std::vector<int> ret; std::vector<real_t> sol; std::vector<Event> log; int next=0, printed=0, alive=0; int primal=0; };
inline Script& script(){ static Script s; return s; }
class QProblem
{
  int v_,c_; PrintLevel pl_=PL_MEDIUM;
  static std::vector<real_t> cp(const real_t* p,int n){ return p? std::vector<real_t>(p,p+n): std::vector<real_t>(); }
  returnValue answer(Event e,int& nWSR)
  {
    e.who=this; e.nV=v_; e.nC=c_; e.nWSR=nWSR; script().log.push_back(e);
    if(pl_!=PL_NONE) ++script().printed;
    int r= script().next<(int)script().ret.size()? script().ret[script().next++]: 0; nWSR= r==RET_MAX_NWSR_REACHED? nWSR: 3; return (returnValue)r;
  }
public:
  QProblem(int v,int c):v_(v),c_(c){ ++script().alive; }
  QProblem(const QProblem& o):v_(o.v_),c_(o.c_),pl_(o.pl_){ ++script().alive; }
  ~QProblem(){ --script().alive; }
  returnValue setPrintLevel(PrintLevel l){ pl_=l; return SUCCESSFUL_RETURN; }
  returnValue init(const real_t* H,const real_t* g,const real_t* A,const real_t* lb,const real_t* ub,const real_t* lbA,const real_t* ubA,int& nWSR,real_t* =0)
  { Event e; e.hot=false; e.H=cp(H,v_*v_); e.g=cp(g,v_); e.A=cp(A,v_*c_); e.lb=cp(lb,v_); e.ub=cp(ub,v_); e.lbA=cp(lbA,c_); e.ubA=cp(ubA,c_); return answer(e,nWSR); }
  returnValue hotstart(const real_t* g,const real_t* lb,const real_t* ub,const real_t* lbA,const real_t* ubA,int& nWSR,real_t* =0)
  { Event e; e.hot=true; e.g=cp(g,v_); e.lb=cp(lb,v_); e.ub=cp(ub,v_); e.lbA=cp(lbA,c_); e.ubA=cp(ubA,c_); return answer(e,nWSR); }
  returnValue getPrimalSolution(real_t* x) const { ++script().primal; for(int i=0;i<v_;++i) x[i]= i<(int)script().sol.size()? script().sol[i]: 0; return SUCCESSFUL_RETURN; }
  bool isInitialised() const { return true; }
  bool isSolved() const { return false; }
  int getNV() const { return v_; } int getNC() const { return c_; }
  returnValue reset(){ return SUCCESSFUL_RETURN; }
};
}
}
