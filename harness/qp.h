// Environment for the generators: a QP solver that records every problem it is
// given and answers as the explorer decides, a reference QP solver, and semantic
// comparison of problems (costs up to a positive factor, constraint sets as sets).
#pragma once
#include "mc.h"
#include <mpc-walkgen/qpsolver.h>
#include <mpc-walkgen/qpsolverfactory.h>
#include <Eigen/Dense>

namespace qp
{
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

// ---- recording environment solver -------------------------------------------
struct Call
{
  M Q,A; V p,xl,xu,bl,bu;     // as handed over
  int nbVar=0,nbCtr=0;        // size of the solver used
  int id=0;                   // which solver object
  bool warm=false;            // warm start asked
  bool wasInit=false;         // the solver had been initialised before
  bool sameAsInit=true;       // Q and A equal to those at initialisation
  bool keptInPlace=true;      // the memory handed over at initialisation still holds them (qpOASES keeps pointers to it)
  M Qk,Ak;                    // what a solver that keeps the matrices of its last cold start works with, if it differs
};
struct Env
{
  std::function<bool(const Call&, V& sol)> answer;   // sol: correction written back
  std::vector<Call> calls;
  int made=0, alive=0;
  bool keepAll=false;
  void reset(){ calls.clear(); answer=nullptr; }
  const Call& last() const { if(calls.empty()) mc::fail("no-qp","the solver was not called"); return calls.back(); }
};
extern Env env;

// ---- objects in memory with a chosen previous content; everything observable, bit by bit
struct Watch { bool on=false; int fill=-1; std::vector<uint64_t> seen; std::function<void()> between; };
extern Watch watch;
extern bool pinning;      // released memory of the size of the matrices is used for something else between calls (S02)
extern size_t pinSize[2];
void scribble();          // give the unused stack the chosen content
void between();           // drivers call this before each call of the library
template<class X> void saw(const X& v){ if(!watch.on) return; mc::Hash h; h((uint64_t)v.size()); for(int i=0;i<(int)v.size();++i){ double d=(double)v.data()[i]; if(d==0) d=0; h.raw(&d,sizeof d); } watch.seen.push_back(h.h); }
inline void saw1(double d){ V v(1); v(0)=d; saw(v); }
template<class T,class... A> T* make(A... a){ void* m; if(posix_memalign(&m,64,sizeof(T)+64)) abort(); if(watch.fill>=0) memset(m,watch.fill,sizeof(T)+64); scribble(); return new(m) T(a...); }
template<class T> void unmake(T* p){ if(p){ p->~T(); free(p); } }

template<class S> class EnvSolver : public MPCWalkgen::QPSolver<S>
{
  int v_,c_,id_; bool init_=false; M Q0_,A0_; const S *Qat_=nullptr,*Aat_=nullptr;
  static bool close(const M& a,const M& b){ return a.size()==0 || (a-b).cwiseAbs().maxCoeff()<=(sizeof(S)==4?1e-5:1e-11)*a.cwiseAbs().maxCoeff(); }
public:
  EnvSolver(int v,int c):v_(v),c_(c),id_(env.made++){ ++env.alive; }
  ~EnvSolver(){ --env.alive; }
  bool solve(const MPCWalkgen::QPMatrices<S>& m,int,typename MPCWalkgen::QPMatrices<S>::VectorX& sol,bool warm,std::ostream*)
  {
    if(!m.dimensionsAreConsistent(v_,c_))
      mc::fail("solver-size","problem with Q %dx%d, A %dx%d, p %d, bl %d, bu %d, xl %d, xu %d given to a solver for %d variables and %d constraints",(int)m.Q.rows(),(int)m.Q.cols(),(int)m.A.rows(),(int)m.A.cols(),(int)m.p.size(),(int)m.bl.size(),(int)m.bu.size(),(int)m.xl.size(),(int)m.xu.size(),v_,c_);
    if(sol.size()!=v_) mc::fail("solution-size","solution vector of size %d given to a solver for %d variables",(int)sol.size(),v_);
    Call c; c.Q=m.Q.template cast<double>(); c.A=m.A.template cast<double>(); c.p=m.p.template cast<double>();
    c.xl=m.xl.template cast<double>(); c.xu=m.xu.template cast<double>(); c.bl=m.bl.template cast<double>(); c.bu=m.bu.template cast<double>();
    c.nbVar=v_; c.nbCtr=c_; c.id=id_; c.warm=warm; c.wasInit=init_;
    if(init_ && warm) { typedef typename std::decay<decltype(m.Q)>::type MQ; typedef typename std::decay<decltype(m.A)>::type MA; c.sameAsInit = close(Q0_,c.Q) && close(A0_,c.A); c.keptInPlace = close(Q0_,Eigen::Map<const MQ>(Qat_,Q0_.rows(),Q0_.cols()).template cast<double>()) && close(A0_,Eigen::Map<const MA>(Aat_,A0_.rows(),A0_.cols()).template cast<double>()); if(!c.sameAsInit){ c.Qk=Q0_; c.Ak=A0_; } else if(!c.keptInPlace){ c.Qk=Eigen::Map<const MQ>(Qat_,Q0_.rows(),Q0_.cols()).template cast<double>(); c.Ak=Eigen::Map<const MA>(Aat_,A0_.rows(),A0_.cols()).template cast<double>(); } }
    else { Q0_=c.Q; A0_=c.A; Qat_=m.Q.data(); Aat_=m.A.data(); pinSize[0]=m.Q.size()*sizeof(S); pinSize[1]=m.A.size()*sizeof(S); init_=true; }
    if(watch.on){ saw(c.Q); saw(c.A); saw(c.p); saw(c.xl); saw(c.xu); saw(c.bl); saw(c.bu); saw1(warm); }
    V s=V::Zero(v_); bool ok=true;
    if(env.answer) ok=env.answer(c,s);
    if(s.size()==v_) for(int i=0;i<v_;++i) sol(i)=(S)s(i);   // a failing solver may leave the correction alone: answer of size 0
    if(!env.keepAll) env.calls.clear();
    env.calls.push_back(c);
    return ok;
  }
  int getNbVar() const { return v_; }
  int getNbCtr() const { return c_; }
};

// ---- reference optimiser (Goldfarb-Idnani dual active set) -------------------
// half-space n.x <= c
struct Half { V n; double c; int tag=0; };
struct Res { bool feasible=false; V x; };
// what a solver with the habits of qpOASES answers: on a warm start with the matrices it was initialised with
inline Call asKept(const Call& q){ Call c=q; if(q.Qk.size()){ c.Q=q.Qk; c.A=q.Ak; } return c; }
// minimise 0.5 x'Qx + p'x subject to the half-spaces, Q positive definite
Res solveQP(const M& Q,const V& p,const std::vector<Half>& hs,double tol=1e-10);

// half-spaces of a recorded problem, on the absolute variable X = X0 + dX, unit normals
std::vector<Half> halves(const Call& c,const V& X0,int from=0,int nb=-1,bool box=true);
void addHalf(std::vector<Half>& v,const V& n,double c,int tag=0);        // normalises; drops void ones
void addBetween(std::vector<Half>& v,const V& n,double lo,double hi,int tag=0);
// all points of a satisfy half-space h up to tol (witness otherwise)
bool implied(const std::vector<Half>& a,const Half& h,double tol,V& witness);
bool hasMatch(const std::vector<Half>& a,const Half& h,double tol);
// compare two constraint sets; fails with key+"-excludes" / key+"-admits"
// only reference half-spaces whose tag is in the mask are looked for; excess is looked for if excess is set
void compareSets(const std::string& key,const std::vector<Half>& ref,const std::vector<Half>& got,double tol,int mask=-1,bool excess=true);
bool sameSets(const std::vector<Half>& a,const std::vector<Half>& b,double tol);
inline bool violates(const std::vector<Half>& a,const V& x,double tol){ for(const Half& h:a) if(h.n.dot(x)>h.c+tol) return true; return false; }

// ---- reference cost: sum of w*(a.X+b)^2 -------------------------------------
struct Cost
{
  int n; M Q,Qabs; V p,pabs; // gradient at X
  V X; double xs=1e-3;       // xs: uncertainty of X, relative to the tolerance
  Cost(int nb,const V& x):n(nb),Q(M::Zero(nb,nb)),Qabs(M::Zero(nb,nb)),p(V::Zero(nb)),pabs(V::Zero(nb)),X(x){}
  // residual a.X+b; scale: magnitude of the terms that were summed to obtain b
  void add(double w,const V& a,double b,double scale=0,double loose=1)
  {
    if(w==0) return;
    V aa=a.cwiseAbs(); if(loose!=1) aa=loose*(aa+V::Constant(n,0.01*aa.maxCoeff()));
    Q.noalias()+=w*a*a.transpose(); Qabs.noalias()+=w*aa*aa.transpose();
    p+=w*a*(a.dot(X)+b); pabs+=w*aa*(aa.dot(X.cwiseAbs())+xs*aa.sum()+loose*(std::fabs(b)+scale));
  }
};
// an affine expression of the plan, with the magnitude of the terms that were summed
struct Aff
{
  V a,aa; double b=0,bb=0;
  explicit Aff(int n=0):a(V::Zero(n)),aa(V::Zero(n)){}
  Aff& plus(double f,const Aff& o){ double g=std::fabs(f); a+=f*o.a; aa+=g*o.aa; b+=f*o.b; bb+=g*o.bb; return *this; }
  Aff& plus(double c){ b+=c; bb+=std::fabs(c); return *this; }
  Aff& scale(double f){ a*=f; b*=f; aa*=std::fabs(f); bb*=std::fabs(f); return *this; }
};
void addAff(Cost& k,double w,const Aff& e);
// the recorded (Q,p) is a positive multiple of the reference
void compareCost(const std::string& key,const Cost& ref,const Call& c,double tol);
}
