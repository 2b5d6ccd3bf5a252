// Helpers of the demonstrations: a QP solver that records the problems it is given
// and gives the answers the demonstration wants.
#include <mpc-walkgen/qpsolver.h>
#include <mpc-walkgen/qpsolverfactory.h>
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <functional>
#include <iostream>
#include <vector>
using namespace MPCWalkgen;
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
struct Rec { M Q,A; V p,xl,xu,bl,bu; bool warm=false; int made=0; };
static Rec rec; static int calls=0;
static std::function<bool(const Rec&,V&)> answer;
template<class S> struct Fake : QPSolver<S>
{
  int v,c; Fake(int a,int b):v(a),c(b){}
  bool solve(const QPMatrices<S>& m,int,typename QPMatrices<S>::VectorX& x,bool w,std::ostream*)
  {
    if(!m.dimensionsAreConsistent(v,c)){ printf("a solver for %d variables and %d constraints is used for another size\n",v,c); exit(1); }
    rec.Q=m.Q.template cast<double>(); rec.A=m.A.template cast<double>(); rec.p=m.p.template cast<double>(); rec.xl=m.xl.template cast<double>(); rec.xu=m.xu.template cast<double>(); rec.bl=m.bl.template cast<double>(); rec.bu=m.bu.template cast<double>(); rec.warm=w; ++calls;
    V s=V::Zero(v); bool ok=true; if(answer) ok=answer(rec,s);
    x=s.template cast<S>(); return ok;
  }
  int getNbVar() const { return v; }
  int getNbCtr() const { return c; }
};
namespace MPCWalkgen
{
template<> QPSolver<double>* makeQPSolver<double>(int v,int c){ return new Fake<double>(v,c); }
template<> QPSolver<float>* makeQPSolver<float>(int v,int c){ return new Fake<float>(v,c); }
}
static int bad(const char* what){ printf("WRONG: %s\n",what); return 1; }
static bool close_(double a,double b,double t=1e-6){ return std::fabs(a-b)<=t*(1+std::fabs(a)+std::fabs(b)); }
static V v3(double a,double b,double c){ V v(3); v<<a,b,c; return v; }
// is the plan x (a correction) admissible
static bool admits(const Rec& r,const V& x,double t=1e-7)
{
  for(int i=0;i<x.size();++i) if(x(i)>r.xu(i)+t||x(i)<r.xl(i)-t) return false;
  V a=r.A*x; for(int i=0;i<a.size();++i) if(a(i)>r.bu(i)+t*(1+std::fabs(r.bu(i)))||a(i)<r.bl(i)-t*(1+std::fabs(r.bl(i)))) return false;
  return true;
}
