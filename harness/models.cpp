// D01, D02, D03, I01: motion models, exhaustive over finite parameter sets, bases and setter histories.
#include "mc.h"
#include <functional>
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>
#include <mpc-walkgen/interpolator.h>
#include <mpc-walkgen/tools.h>
using namespace MPCWalkgen;
typedef long double LD;
std::function<void()> modelBetween;      // what other instances do between two calls
static void between(){ if(modelBetween) modelBetween(); }

template<class S> struct Prec;
template<> struct Prec<double>{ static const char* name(){return "double";} static double tol(){return 1e-9;} };
template<> struct Prec<float>{ static const char* name(){return "float";} static double tol(){return 3e-5;} };

// ---- reference: step-by-step integration ------------------------------------
enum Quantity { POS, VEL, ACC, JERK, COP, POS2, VEL2 };
struct Phys { LD h=1, gx=0, gz=9.81L, ratio=1; };
// order 3: state (p,v,a), command jerk; order 2: state (p,v), command acceleration
static std::vector<LD> simulate(Quantity q,const std::vector<LD>& state,const std::vector<LD>& u,LD S,LD T,const Phys& ph)
{
  std::vector<LD> out; LD p=state[0],v=state[1],a=state.size()>2?state[2]:0;
  for(size_t i=0;i<u.size();++i)
  {
    LD dt= i==0? S: T;
    if(q==POS2||q==VEL2){ p+=v*dt+0.5L*u[i]*dt*dt; v+=u[i]*dt; }
    else { p+=v*dt+0.5L*a*dt*dt+u[i]*dt*dt*dt/6; v+=a*dt+0.5L*u[i]*dt*dt; a+=u[i]*dt; }
    switch(q){ case POS: case POS2: out.push_back(p); break; case VEL: case VEL2: out.push_back(v); break; case ACC: out.push_back(a); break;
      case JERK: out.push_back(u[i]); break; case COP: out.push_back(ph.ratio*(p-ph.h/ph.gz*(a+ph.gx))); break; }
  }
  return out;
}

template<class S> static void checkDyn(const char* what,Quantity q,const LinearDynamic<S>& d,int N,LD Sx,LD T,const Phys& ph)
{
  int ns = (q==POS2||q==VEL2)?2:3;
  if(d.U.rows()!=N||d.U.cols()!=N||d.S.rows()!=N||d.S.cols()!=ns||d.K.size()!=N) mc::fail(std::string("shape-")+what,"%s %s: wrong matrix sizes for horizon %d",Prec<S>::name(),what,N);
  // scale of the quantities for the tolerance
  LD hor=Sx+N*T, sc=1+hor*hor*hor+ (q==COP? ph.h/std::fabs((double)ph.gz)*(1+hor+std::fabs((double)ph.gx)):0);
  LD tol=Prec<S>::tol()*sc;
  std::vector<LD> z(ns,0.0L),u0(N,0.0L);
  std::vector<LD> base=simulate(q,z,u0,Sx,T,ph);
  for(int i=0;i<N;++i) if(std::fabs((double)(base[i]-d.K(i)))>tol) mc::fail(std::string("K-")+what,"%s %s N=%d S=%g T=%g: constant part at sample %d is %g, integration gives %g",Prec<S>::name(),what,N,(double)Sx,(double)T,i,(double)d.K(i),(double)base[i]);
  for(int k=0;k<ns+N;++k)
  {
    std::vector<LD> s=z,u=u0; if(k<ns) s[k]=1; else u[k-ns]=1;
    std::vector<LD> r=simulate(q,s,u,Sx,T,ph);
    for(int i=0;i<N;++i)
    {
      LD e=r[i]-base[i], g= k<ns? (LD)d.S(i,k): (LD)d.U(i,k-ns);
      mc::checked();
      if(!(std::fabs((double)(e-g))<=tol)) mc::fail(std::string(k<ns?"S-":"U-")+what,"%s %s N=%d S=%g T=%g: effect of %s %d on sample %d is %.9g, integration gives %.9g",Prec<S>::name(),what,N,(double)Sx,(double)T,k<ns?"state component":"command",k<ns?k:k-ns,i,(double)g,(double)e);
    }
  }
  mc::transition(ns+N); mc::traceDone(ns+N);
  mc::Hash h; h((int)q)(N).d(d.U(N-1,0)).d(Sx); mc::state(h.h); mc::outcome(h.d(d.U(N-1,N-1)).h);
}

struct Cfg { double T; int sub; double h,gx,gy,gz,m,M; };
static const double Ts[]={0.1,0.2,0.5,1.0,0.02,0.35};
static const int subs[]={1,2,5,10,3};
static const double hs[]={0.8,0.0,1.2,0.45};
static const double gs[][3]={{0,0,9.81},{0.6,-0.4,9.7},{-1.5,0.9,9.2},{0,0,1.6}};
static const double ms[][2]={{1,1},{3,8},{8,8},{10,14.5}};

template<class S,class F> static void forLip(int N,const Cfg& c,F f)
{
  typename Type<S>::Vector3 g((S)c.gx,(S)c.gy,(S)c.gz);
  LIPModel<S> m(N,(S)c.T,true);
  m.setFeedbackPeriod((S)(c.T/c.sub)); m.setComHeight((S)c.h); m.setGravity(g); 
  if(c.m<=1){ m.setMass((S)c.m); m.setTotalMass((S)c.M);} else { m.setTotalMass((S)c.M); m.setMass((S)c.m);} 
  f(m);
}
template<class S> static void lipCase(int N,const Cfg& c)
{
  forLip<S>(N,c,[&](LIPModel<S>& m){
    Phys px; px.h=(S)c.h; px.gx=(S)c.gx; px.gz=(S)c.gz; px.ratio=(LD)(S)c.m/(LD)(S)c.M; Phys py=px; py.gx=(S)c.gy;
    LD fb=(S)(c.T/c.sub), T=(S)c.T;
    for(int i=0;i<c.sub;++i)
    {
      LD Sx=(i+1)*fb;
      checkDyn<S>("com position",POS,m.getComPosLinearDynamic(i),N,Sx,T,px);
      checkDyn<S>("com velocity",VEL,m.getComVelLinearDynamic(i),N,Sx,T,px);
      checkDyn<S>("com acceleration",ACC,m.getComAccLinearDynamic(i),N,Sx,T,px);
      checkDyn<S>("com jerk",JERK,m.getComJerkLinearDynamic(i),N,Sx,T,px);
      checkDyn<S>("cop x",COP,m.getCopXLinearDynamic(i),N,Sx,T,px);
      checkDyn<S>("cop y",COP,m.getCopYLinearDynamic(i),N,Sx,T,py);
    }
    // the getters without offset describe a horizon that starts on a sample
    checkDyn<S>("com position (default)",POS,m.getComPosLinearDynamic(),N,T,T,px);
    checkDyn<S>("com velocity (default)",VEL,m.getComVelLinearDynamic(),N,T,T,px);
    checkDyn<S>("com acceleration (default)",ACC,m.getComAccLinearDynamic(),N,T,T,px);
    checkDyn<S>("com jerk (default)",JERK,m.getComJerkLinearDynamic(),N,T,T,px);
    checkDyn<S>("cop x (default)",COP,m.getCopXLinearDynamic(),N,T,T,px);
    checkDyn<S>("cop y (default)",COP,m.getCopYLinearDynamic(),N,T,T,py);
    if(m.getNbSamples()!=N||m.getSamplingPeriod()!=(S)c.T||m.getComHeight()!=(S)c.h||m.getMass()!=(S)c.m||m.getStateZ()(0)!=(S)c.h) mc::fail("getters","LIP getters do not return the values set");
  });
}
template<class S> static void baseCase(int N,const Cfg& c)
{
  BaseModel<S> m(N,(S)c.T,true);
  m.setTotalMass((S)c.M); m.setMass((S)c.m); m.setComHeight((S)c.h); m.setGravity(typename Type<S>::Vector3((S)c.gx,(S)c.gy,(S)c.gz));
  Phys px; px.h=(S)c.h; px.gx=(S)c.gx; px.gz=(S)c.gz; px.ratio=(LD)(S)c.m/(LD)(S)c.M; Phys py=px; py.gx=(S)c.gy;
  LD T=(S)c.T;
  checkDyn<S>("base position",POS,m.getBasePosLinearDynamic(),N,T,T,px);
  checkDyn<S>("base velocity",VEL,m.getBaseVelLinearDynamic(),N,T,T,px);
  checkDyn<S>("base acceleration",ACC,m.getBaseAccLinearDynamic(),N,T,T,px);
  checkDyn<S>("base jerk",JERK,m.getBaseJerkLinearDynamic(),N,T,T,px);
  checkDyn<S>("base cop x",COP,m.getCopXLinearDynamic(),N,T,T,px);
  checkDyn<S>("base cop y",COP,m.getCopYLinearDynamic(),N,T,T,py);
  checkDyn<S>("tilt angle",POS2,m.getBaseTiltAngleLinearDynamic(),N,T,T,px);
  checkDyn<S>("tilt velocity",VEL2,m.getBaseTiltAngularVelLinearDynamic(),N,T,T,px);
}
template<class S> static void pointCase(int N,const Cfg& c)
{
  NoDynamicModel<S> m(N,(S)c.T,true); Phys p; LD T=(S)c.T;
  checkDyn<S>("position",POS,m.getPosLinearDynamic(),N,T,T,p);
  checkDyn<S>("velocity",VEL,m.getVelLinearDynamic(),N,T,T,p);
  checkDyn<S>("acceleration",ACC,m.getAccLinearDynamic(),N,T,T,p);
  checkDyn<S>("jerk",JERK,m.getJerkLinearDynamic(),N,T,T,p);
}
// unequal first interval through the low-level builder
template<class S> static void toolsCase(int N,double Sx,double T,const Cfg& c)
{
  typedef Tools::ConstantJerkDynamic<S> CJ; LinearDynamic<S> d; Phys p; p.h=(S)c.h; p.gx=(S)c.gx; p.gz=(S)c.gz; p.ratio=(LD)(S)c.m/(LD)(S)c.M;
  LD s=(S)Sx,t=(S)T;
  CJ::computePosDynamic((S)Sx,(S)T,N,d); checkDyn<S>("builder position",POS,d,N,s,t,p);
  CJ::computeVelDynamic((S)Sx,(S)T,N,d); checkDyn<S>("builder velocity",VEL,d,N,s,t,p);
  CJ::computeAccDynamic((S)Sx,(S)T,N,d); checkDyn<S>("builder acceleration",ACC,d,N,s,t,p);
  CJ::computeJerkDynamic(N,d); checkDyn<S>("builder jerk",JERK,d,N,s,t,p);
  CJ::computeOrder2PosDynamic((S)Sx,(S)T,N,d); checkDyn<S>("builder order-2 position",POS2,d,N,s,t,p);
  CJ::computeOrder2VelDynamic((S)Sx,(S)T,N,d); checkDyn<S>("builder order-2 velocity",VEL2,d,N,s,t,p);
  CJ::computeCopDynamic((S)Sx,(S)T,N,d,(S)c.h,(S)c.gx,(S)c.gz,(S)c.m,(S)c.M); checkDyn<S>("builder cop",COP,d,N,s,t,p);
}
// advancing the state equals integration, and reproduces the predictions
template<class S,class M,class GetX,class Upd> static void advance(const char* what,M& m,GetX get,Upd upd,const std::vector<double>& jerks,const std::vector<double>& dts,double unit=1)
{
  LD p=get(m)(0),v=get(m)(1),a=get(m)(2);
  for(size_t i=0;i<jerks.size();++i)
  {
    LD j=(S)jerks[i],dt=(S)dts[i];
    upd(m,(S)jerks[i],(S)dts[i]);
    p+=v*dt+a*dt*dt/2+j*dt*dt*dt/6; v+=a*dt+j*dt*dt/2; a+=j*dt;
    LD t=Prec<S>::tol()*(unit+std::fabs((double)p)+std::fabs((double)v)+std::fabs((double)a))*10;
    mc::checked(3);
    if(!(std::fabs((double)(get(m)(0)-p))<=t)||!(std::fabs((double)(get(m)(1)-v))<=t)||!(std::fabs((double)(get(m)(2)-a))<=t))
      mc::fail(std::string("advance-")+what,"%s %s: step %d (jerk %g for %g s) leads to (%g,%g,%g), integration gives (%g,%g,%g)",Prec<S>::name(),what,(int)i,(double)j,(double)dt,(double)get(m)(0),(double)get(m)(1),(double)get(m)(2),(double)p,(double)v,(double)a);
  }
  mc::transition(jerks.size()); mc::traceDone();
}
template<class S> static void advanceCase(uint64_t i,double unit=1)
{
  typedef typename Type<S>::VectorX V;
  mc::Radix r(i); static const double st[]={0,1,-0.5}; static const double jk[]={0,2,-3}; static const double dt[]={0.02,0.1,0.5};
  V s(3); for(int k=0;k<3;++k) s(k)=(S)(unit*st[r(3)]);
  std::vector<double> j,d; for(int k=0;k<3;++k){ j.push_back(unit*jk[r(3)]); d.push_back(dt[r(3)]); }
  mc::Hash h; h(i); mc::state(h.h);
  V other(3); other<<(S)0.7,(S)-0.3,(S)0.2;
  { LIPModel<S> m; m.setStateX(s); m.setStateY(other); m.setStateYaw(other); advance<S>("lip x",m,[](LIPModel<S>&q)->const V&{return q.getStateX();},[](LIPModel<S>&q,S a,S b){q.updateStateX(a,b);},j,d,unit); if(m.getStateY()!=other||m.getStateYaw()!=other) mc::fail("advance-other","advancing x changes another state"); }
  { LIPModel<S> m; m.setStateY(s); m.setStateX(other); m.setStateYaw(other); advance<S>("lip y",m,[](LIPModel<S>&q)->const V&{return q.getStateY();},[](LIPModel<S>&q,S a,S b){q.updateStateY(a,b);},j,d,unit); if(m.getStateX()!=other||m.getStateYaw()!=other) mc::fail("advance-other","advancing y changes another state"); }
  { LIPModel<S> m; m.setStateYaw(s); m.setStateX(other); m.setStateY(other); advance<S>("lip yaw",m,[](LIPModel<S>&q)->const V&{return q.getStateYaw();},[](LIPModel<S>&q,S a,S b){q.updateStateYaw(a,b);},j,d,unit); if(m.getStateX()!=other||m.getStateY()!=other) mc::fail("advance-other","advancing yaw changes another state"); }
  { BaseModel<S> m; m.setStateX(s); m.setStateY(other); advance<S>("base x",m,[](BaseModel<S>&q)->const V&{return q.getStateX();},[](BaseModel<S>&q,S a,S b){q.updateStateX(a,b);},j,d,unit); if(m.getStateY()!=other) mc::fail("advance-other","advancing x changes another state"); }
  { BaseModel<S> m; m.setStateY(s); m.setStateX(other); advance<S>("base y",m,[](BaseModel<S>&q)->const V&{return q.getStateY();},[](BaseModel<S>&q,S a,S b){q.updateStateY(a,b);},j,d,unit); if(m.getStateX()!=other) mc::fail("advance-other","advancing y changes another state"); }
  { NoDynamicModel<S> m; m.setState(s); advance<S>("point",m,[](NoDynamicModel<S>&q)->const V&{return q.getState();},[](NoDynamicModel<S>&q,S a,S b){q.updateState(a,b);},j,d,unit); }
}

static Cfg cfgOf(mc::Radix& r,int nT,int nSub)
{
  Cfg c; c.T=Ts[r(nT)]; c.sub=subs[r(nSub)]; c.h=hs[r(4)]; int g=r(4); c.gx=gs[g][0]; c.gy=gs[g][1]; c.gz=gs[g][2]; int m=r(4); c.m=ms[m][0]; c.M=ms[m][1]; return c;
}
// horizons: every size up to a bound, one long one
static int horizon(int k){ return k<8? k+1: k==8? 12: k==9? 17: 24; }

MC_CHECK(D01)
{
  int nT= 6, nS= mc::ctx.thorough?5:3, nN= mc::ctx.thorough?11:10;
  mc::cases("pendulum",(uint64_t)nN*nT*nS*64,[&](uint64_t i){
    mc::Radix r(i); int N=horizon(r(nN)); Cfg c=cfgOf(r,nT,nS);
    mc::note("pendulum N=%d T=%g fb=T/%d h=%g g=(%g,%g,%g) mass %g of %g",N,c.T,c.sub,c.h,c.gx,c.gy,c.gz,c.m,c.M);
    lipCase<double>(N,c); if(N<=8) lipCase<float>(N,c); if(i==500) mc::sample();
  });
  mc::cases("base",(uint64_t)nN*nT*64,[&](uint64_t i){
    mc::Radix r(i); int N=horizon(r(nN)); Cfg c=cfgOf(r,nT,1);
    mc::note("base N=%d T=%g h=%g g=(%g,%g,%g) mass %g of %g",N,c.T,c.h,c.gx,c.gy,c.gz,c.m,c.M);
    baseCase<double>(N,c); if(N<=8) baseCase<float>(N,c);
  });
  mc::cases("point",(uint64_t)nN*nT,[&](uint64_t i){
    mc::Radix r(i); int N=horizon(r(nN)); Cfg c=cfgOf(r,nT,1); mc::note("point N=%d T=%g",N,c.T); pointCase<double>(N,c); pointCase<float>(N,c);
  });
  mc::cases("builders",(uint64_t)nN*nT*4*6,[&](uint64_t i){
    mc::Radix r(i); int N=horizon(r(nN)); double T=Ts[r(nT)]; int f=r(4); static const double fr[]={1,0.5,0.1,0.75}; Cfg c; int v=r(6); c.h=hs[v%4]; c.gx=gs[v%4][0]; c.gz=gs[v%4][2]; c.m=ms[(v+1)%4][0]; c.M=ms[(v+1)%4][1];
    mc::note("builders N=%d S=%g T=%g",N,fr[f]*T,T); toolsCase<double>(N,fr[f]*T,T,c); if(N<=8) toolsCase<float>(N,fr[f]*T,T,c);
  });
  mc::cases("advance",mc::ipow(3,9)/ (mc::ctx.thorough?1:9),[&](uint64_t i){ mc::note("advance %llu",(unsigned long long)i); uint64_t k= mc::ctx.thorough? i: i*9+(i/3)%9; advanceCase<double>(k); advanceCase<float>(k); for(double u: {1e-4,64.0,1e4}){ advanceCase<double>(k,u); advanceCase<float>(k,u); } });
}

// ---- D02 --------------------------------------------------------------------
template<class S> static void checkInv(const char* what,const LinearDynamic<S>& d,bool uinv)
{
  typedef Eigen::Matrix<long double,-1,-1> ML;
  int N=d.U.rows();
  mc::checked(1); mc::transition(); mc::traceDone();
  if(d.UT.rows()!=d.U.cols()||d.UT.cols()!=N||d.UT!=d.U.transpose()) mc::fail(std::string("UT-")+what,"%s %s N=%d: the published transpose is not the transpose",Prec<S>::name(),what,N);
  if(!uinv) return;
  ML U=d.U.template cast<long double>(),I=d.Uinv.template cast<long double>(),IT=d.UTinv.template cast<long double>();
  if(I.rows()!=N||I.cols()!=N||IT.rows()!=N||IT.cols()!=N) mc::fail(std::string("Uinv-")+what,"%s %s: the inverse has a wrong size",Prec<S>::name(),what);
  ML P=U*I, Q=IT*d.UT.template cast<long double>();
  // the command matrices are lower triangular: reference inverse by forward substitution
  ML R=ML::Zero(N,N); for(int c=0;c<N;++c) for(int i=c;i<N;++i){ long double v=(i==c); for(int k=c;k<i;++k) v-=U(i,k)*R(k,c); R(i,c)=v/U(i,i); }
  ML Ua=U.cwiseAbs(), Ia=R.cwiseAbs();
  long double eps = sizeof(S)==4? 6e-8L: 1.2e-16L;
  // forward error of a computed inverse: |U inv(U) - I| <= c N eps |U||inv U|, plus the entries
  // of the inverse below 1e-4, which the library rounds to zero
  ML bound=Ua*Ia*(eps*50*N);
  if(!(bound.maxCoeff()<1e-2L)) return;     // no inverse exists to working precision
  for(int i=0;i<N;++i) for(int j=0;j<N;++j)
  {
    long double tol=bound.maxCoeff()+1.01e-4L*Ua.row(i).sum()+1e-7L;
        mc::checked();
    if(!(std::fabs((double)(P(i,j)-(i==j)))<=tol)) mc::fail(std::string("Uinv-")+what,"%s %s N=%d: (matrix x inverse)(%d,%d)=%g",Prec<S>::name(),what,N,i,j,(double)P(i,j));
    if(!(std::fabs((double)(IT(i,j)-I(j,i)))<=1e-6*(1+std::fabs((double)I(j,i))))) mc::fail(std::string("UTinv-")+what,"%s %s N=%d: inverse of the transpose (%d,%d)=%g, transpose of the inverse %g",Prec<S>::name(),what,N,i,j,(double)IT(i,j),(double)I(j,i));
  }
  mc::Hash h; h(N).d(d.Uinv(0,0)).d(d.Uinv(N-1,0)); mc::state(h.h); mc::outcome(h.h);
}
template<class S> static void invCase(int N,const Cfg& c,double frac)
{
  forLip<S>(N,c,[&](LIPModel<S>& m){
    for(int i=0;i<c.sub;++i)
    {
      checkInv<S>("com position",m.getComPosLinearDynamic(i),true);
      checkInv<S>("com velocity",m.getComVelLinearDynamic(i),true);
      checkInv<S>("com acceleration",m.getComAccLinearDynamic(i),true);
      checkInv<S>("com jerk",m.getComJerkLinearDynamic(i),true);
      checkInv<S>("cop x",m.getCopXLinearDynamic(i),true);
      checkInv<S>("cop y",m.getCopYLinearDynamic(i),true);
    }
  });
  BaseModel<S> b(N,(S)c.T,true); b.setTotalMass((S)c.M); b.setMass((S)c.m); b.setComHeight((S)c.h); b.setGravity(typename Type<S>::Vector3((S)c.gx,(S)c.gy,(S)c.gz));
  checkInv<S>("base position",b.getBasePosLinearDynamic(),true);
  checkInv<S>("base velocity",b.getBaseVelLinearDynamic(),true);
  checkInv<S>("base acceleration",b.getBaseAccLinearDynamic(),true);
  checkInv<S>("base jerk",b.getBaseJerkLinearDynamic(),true);
  checkInv<S>("base cop x",b.getCopXLinearDynamic(),true);
  checkInv<S>("base cop y",b.getCopYLinearDynamic(),true);
  checkInv<S>("tilt angle",b.getBaseTiltAngleLinearDynamic(),true);
  checkInv<S>("tilt velocity",b.getBaseTiltAngularVelLinearDynamic(),true);
  NoDynamicModel<S> p(N,(S)c.T,true);
  checkInv<S>("position",p.getPosLinearDynamic(),true); checkInv<S>("velocity",p.getVelLinearDynamic(),true);
  checkInv<S>("acceleration",p.getAccLinearDynamic(),true); checkInv<S>("jerk",p.getJerkLinearDynamic(),true);
  typedef Tools::ConstantJerkDynamic<S> CJ; LinearDynamic<S> d; S Sx=(S)(c.T*frac),T=(S)c.T;
  CJ::computePosDynamic(Sx,T,N,d); checkInv<S>("builder position",d,true);
  CJ::computeVelDynamic(Sx,T,N,d); checkInv<S>("builder velocity",d,true);
  CJ::computeAccDynamic(Sx,T,N,d); checkInv<S>("builder acceleration",d,true);
  CJ::computeOrder2PosDynamic(Sx,T,N,d); checkInv<S>("builder order-2 position",d,true);
  CJ::computeOrder2VelDynamic(Sx,T,N,d); checkInv<S>("builder order-2 velocity",d,true);
  CJ::computeJerkDynamic(N,d); checkInv<S>("builder jerk",d,true);
}
template<class S> static void svdCase(const typename Type<S>::MatrixX& A)
{
  typedef typename Type<S>::MatrixX M; M P;
  S eps= sizeof(S)==4? (S)1e-5: (S)1e-12;
  Tools::inverseSVD<S>(A,P,eps);
  S tol= sizeof(S)==4? (S)2e-4: (S)1e-10; mc::checked(4); mc::transition(); mc::traceDone();
  if(P.rows()!=A.cols()||P.cols()!=A.rows()) mc::fail("svd-shape","pseudo-inverse of a %dx%d matrix is %dx%d",(int)A.rows(),(int)A.cols(),(int)P.rows(),(int)P.cols());
  if(!((A*P*A-A).cwiseAbs().maxCoeff()<=tol*10)||!((P*A*P-P).cwiseAbs().maxCoeff()<=tol*(10+50*P.cwiseAbs().maxCoeff()))||!((A*P-(A*P).transpose()).cwiseAbs().maxCoeff()<=tol*10)||!((P*A-(P*A).transpose()).cwiseAbs().maxCoeff()<=tol*10))
    mc::fail("svd","%s: not the pseudo-inverse",Prec<S>::name());
  mc::Hash h; h(17); for(int i=0;i<A.size();++i) h.d(A.data()[i]); mc::state(h.h);
}
template<class S> static void luCase(const typename Type<S>::MatrixX& A,double det)
{
  typedef typename Type<S>::MatrixX M; M P;
  if(std::fabs(det)<0.5) return;            // integer matrices: singular or |det|>=1
  Tools::inverseLU<S>(A,P,(S)1e-6); mc::checked(); mc::transition(); mc::traceDone();
  if(P.rows()!=A.rows()||!((A*P-M::Identity(A.rows(),A.rows())).cwiseAbs().maxCoeff()<=(sizeof(S)==4?2e-4:1e-4))) mc::fail("lu","%s: A x inverse is not the identity",Prec<S>::name());
}
// larger matrices of known structure, at several scales: k selects the structure
static const int STRUCT=14;
static Eigen::MatrixXd structured(int k,int n)
{
  Eigen::MatrixXd A=Eigen::MatrixXd::Zero(n,n);
  for(int i=0;i<n;++i) for(int j=0;j<n;++j) switch(k)
  {
    case 0: A(i,j)= (i+1)%n==j; break;                                   // cyclic permutation
    case 1: A(i,j)= i==j?2: std::abs(i-j)==1?-1:0; break;                // second difference
    case 2: A(i,j)= i>=j; break;                                         // running sum
    case 3: A(i,j)= i<j?0: 1+0.5*(i-j); break;                           // double running sum
    case 4: A(i,j)= std::min(i,j)+1; break;
    case 5: A(i,j)= i+j==n-1? (i%2?-1:3): 0; break;                      // reversed, signed
    case 6: A(i,j)= i==j? n+1: ((i*7+j*3)%5)-2; break;                   // dominant diagonal
    case 7: A(i,j)= j==(i*(n%3==0?n-1:n-1)+1)%n? 1+i%3: 0; break;        // scaled permutation
    case 8: A(i,j)= i/2==j/2? (i==j?1: i<j?2:-2): 0; break;              // 2x2 rotations
    case 9: A(i,j)= i==0||j==0? 1: i==j? 2: 0; break;                    // arrow
    case 10: A(i,j)= std::cos(M_PI*(i+0.5)*(j+0.5)/n); break;            // cosine transform
    case 11: A(i,j)= i==j? (i%2?1e-2:10): 0; break;                      // badly scaled diagonal
    case 12: A(i,j)= (i+1.0)*(j%3-1.0); break;                           // rank one
    case 13: A(i,j)= i/2==j/2? 1: 0; break;                              // rank n/2
  }
  return A;
}
template<class S> static void structCase(const Eigen::MatrixXd& B,bool lu)
{
  typedef typename Type<S>::MatrixX M; M A=B.cast<S>(),P; LD eps= sizeof(S)==4? 6e-8L: 1.2e-16L;
  Eigen::JacobiSVD<Eigen::MatrixXd> sv(A.template cast<double>()); double hi=sv.singularValues()(0),lo=hi; bool full=true; for(int i=0;i<sv.singularValues().size();++i) if(sv.singularValues()(i)>1e-6*hi) lo=sv.singularValues()(i); else full=false;
  int n=std::max(A.rows(),A.cols()); double tol=(double)(eps*200*n*(hi/lo)); if(!(tol<1e-2)) return; mc::checked(2); mc::transition(); mc::traceDone();
  Eigen::MatrixXd Ad=A.template cast<double>();
  { Tools::inverseSVD<S>(A,P,sizeof(S)==4?(S)1e-6:(S)1e-12); if(P.rows()!=A.cols()||P.cols()!=A.rows()) mc::fail("svd-shape","pseudo-inverse of a %dx%d matrix is %dx%d",(int)A.rows(),(int)A.cols(),(int)P.rows(),(int)P.cols()); Eigen::MatrixXd Q=P.template cast<double>(),L=Ad*Q,R=Q*Ad;
    if(!((L*Ad-Ad).cwiseAbs().maxCoeff()<=tol*hi)||!((R*Q-Q).cwiseAbs().maxCoeff()<=tol/lo)||!((L-L.transpose()).cwiseAbs().maxCoeff()<=tol)||!((R-R.transpose()).cwiseAbs().maxCoeff()<=tol)) mc::fail("svd","%s: not the pseudo-inverse",Prec<S>::name()); }
  if(lu&&full){ Tools::inverseLU<S>(A,P,(S)(1e-9/hi)); if(P.rows()!=A.rows()||P.cols()!=A.cols()||!((Ad*P.template cast<double>()-Eigen::MatrixXd::Identity(n,n)).cwiseAbs().maxCoeff()<=tol+1e-8*n)) mc::fail("lu","%s: A x inverse is not the identity",Prec<S>::name()); }
  mc::Hash h; h(18)(n).d(hi).d(lo); mc::state(h.h);
}
MC_CHECK(D02)
{
  int nT= 6, nS= mc::ctx.thorough?5:3, nN= mc::ctx.thorough?11:10;
  mc::cases("structured matrices",STRUCT*24*7,[&](uint64_t i){ mc::Radix r(i); int k=r(STRUCT),n=1+r(24),e=r(7)-3; Eigen::MatrixXd A=structured(k,n)*std::pow(10.0,e); mc::note("structure %d, %dx%d, times 1e%d",k,n,n,e); structCase<double>(A,k<12); structCase<float>(A,k<12);
    if(n>1){ Eigen::MatrixXd B=A.leftCols(n-1),C=A.topRows((n+1)/2); structCase<double>(B,false); structCase<double>(C,false); structCase<float>(B,false); } });
  mc::cases("signed permutations",120*32,[&](uint64_t i){ mc::Radix r(i); int p[5]={0,1,2,3,4}; for(int k=4;k>0;--k) std::swap(p[k],p[r(k+1)]); Eigen::MatrixXd A=Eigen::MatrixXd::Zero(5,5); int sg=r(32); for(int k=0;k<5;++k) A(k,p[k])=(sg>>k&1)?-1:1; structCase<double>(A,true); if(i%4==0) structCase<float>(A,true); });
  mc::cases("dynamics",(uint64_t)nN*nT*nS*64,[&](uint64_t i){
    mc::Radix r(i); int N=horizon(r(nN)); Cfg c=cfgOf(r,nT,nS); static const double fr[]={1,0.5,0.1,0.75}; double f=fr[(i/7)%4];
    mc::note("N=%d T=%g fb=T/%d h=%g g=(%g,%g,%g) mass %g of %g first interval %g T",N,c.T,c.sub,c.h,c.gx,c.gy,c.gz,c.m,c.M,f);
    // skip command matrices that are singular by themselves: S^2/6 = h/g
    for(int k=1;k<=c.sub;++k){ double s=c.T*k/c.sub; if(std::fabs(s*s/6-c.h/c.gz)<1e-3*(c.h/c.gz+1e-9) && c.h>0) return; }
    invCase<double>(N,c,f); invCase<float>(N,c,f); if(i==300) mc::sample();
  });
  auto fill=[](Eigen::MatrixXd& A,uint64_t i,int base,int off){ mc::Radix r(i); for(int k=0;k<A.size();++k) A.data()[k]=r(base)-off; };
  auto both=[&](const Eigen::MatrixXd& A){ if(A.rows()==A.cols()){ double det=A.determinant(); luCase<double>(A,det); luCase<float>(A.cast<float>(),det);} svdCase<double>(A); svdCase<float>(A.cast<float>()); };
  mc::cases("1x1",11,[&](uint64_t i){ Eigen::MatrixXd A(1,1); A(0,0)=(double)i-5; mc::note("[%g]",A(0,0)); both(A); });
  mc::cases("2x2",25,[&](uint64_t i){ for(uint64_t k=i*25;k<i*25+25;++k){ Eigen::MatrixXd A(2,2); fill(A,k,5,2); mc::note("2x2 #%llu",(unsigned long long)k); both(A); } });
  for(int sh=0;sh<3;++sh) mc::cases(sh==0?"2x3":sh==1?"3x2":"1x3",27,[&](uint64_t i){ for(uint64_t k=i*27;k<i*27+27;++k){ Eigen::MatrixXd A(sh==0?2:sh==1?3:1,sh==0?3:sh==1?2:3); fill(A,k,3,1); mc::note("#%llu",(unsigned long long)k); both(A); } });
  mc::cases("3x3",243,[&](uint64_t i){ for(uint64_t k=i*81;k<i*81+81;++k){ Eigen::MatrixXd A(3,3); fill(A,k,3,1); mc::note("3x3 #%llu",(unsigned long long)k); both(A); } });
  if(mc::ctx.thorough) mc::cases("4x4",1024,[&](uint64_t i){ for(uint64_t k=i*64;k<i*64+64;++k){ Eigen::MatrixXd A(4,4); fill(A,k,2,0); mc::note("4x4 #%llu",(unsigned long long)k); both(A); } });
}

// ---- D03 --------------------------------------------------------------------
template<class S> static void same(const char* what,const LinearDynamic<S>& a,const LinearDynamic<S>& b)
{
  mc::checked();
  auto eq=[](const auto&x,const auto&y){ if(x.rows()!=y.rows()||x.cols()!=y.cols()) return false; for(int i=0;i<x.rows();++i) for(int j=0;j<x.cols();++j){ S u=x(i,j),v=y(i,j); if(!(u==v || (u!=u&&v!=v) || std::fabs((double)(u-v))<=1e-9*std::fabs((double)v)+1e-12)) return false; } return true; };
  if(!eq(a.U,b.U)||!eq(a.S,b.S)||!eq(a.K,b.K)||!eq(a.UT,b.UT)||!eq(a.Uinv,b.Uinv)||!eq(a.UTinv,b.UTinv)) mc::fail(std::string("history-")+what,"%s differs from a fresh model with the same parameters",what);
}
// the object goes on as a copy of itself, after the original was used for something else, and so is the copy afterwards
template<class Mo,class F> static typename std::enable_if<std::is_copy_constructible<Mo>::value&&std::is_copy_assignable<Mo>::value>::type copied(Mo& m,F spoil){ Mo c(m); spoil(m); m=c; spoil(c); }
template<class Mo,class F> static typename std::enable_if<!(std::is_copy_constructible<Mo>::value&&std::is_copy_assignable<Mo>::value)>::type copied(Mo&,F){}
struct LP { int N=1; double T=1,fb=1,h=1; double g[3]={gs[0][0],gs[0][1],gs[0][2]}; double m=1,M=1; double st[3][3]={{0,0,0},{0,0,0},{0,0,0}}; bool moved=false; };
template<class S> static bool sameState(const typename Type<S>::VectorX& v,const double* s,bool moved){ for(int k=0;k<3;++k){ double d=std::fabs((double)v(k)-s[k]); if(moved?d>(sizeof(S)==8?1e-9:4e-6)*(1+std::fabs(s[k])):v(k)!=(S)s[k]) return false; } return v.size()==3; }
static void moveState(double* s,double j,double t){ s[0]+=t*s[1]+t*t/2*s[2]+t*t*t/6*j; s[1]+=t*s[2]+t*t/2*j; s[2]+=t*j; }
template<class S> static void applyLip(LIPModel<S>& m,const LP& p)
{
  m.setNbSamples(p.N); m.setSamplingPeriod((S)p.T); m.setFeedbackPeriod((S)p.fb); m.setComHeight((S)p.h); m.setGravity(typename Type<S>::Vector3((S)p.g[0],(S)p.g[1],(S)p.g[2]));
  if(p.M>=m.getMass()){ m.setTotalMass((S)p.M); m.setMass((S)p.m);} else { m.setMass((S)p.m); m.setTotalMass((S)p.M);} 
}
template<class S> static void cmpLip(LIPModel<S>& m,const LP& p)
{
  LIPModel<S> f; applyLip(f,p);
  int nb=(int)((p.T+1e-4)/p.fb);
  for(int i=0;i<nb;++i){ same("com position",m.getComPosLinearDynamic(i),f.getComPosLinearDynamic(i)); same("com velocity",m.getComVelLinearDynamic(i),f.getComVelLinearDynamic(i)); same("com acceleration",m.getComAccLinearDynamic(i),f.getComAccLinearDynamic(i)); same("com jerk",m.getComJerkLinearDynamic(i),f.getComJerkLinearDynamic(i)); same("cop x",m.getCopXLinearDynamic(i),f.getCopXLinearDynamic(i)); same("cop y",m.getCopYLinearDynamic(i),f.getCopYLinearDynamic(i)); }
  same("com position (default)",m.getComPosLinearDynamic(),f.getComPosLinearDynamic()); same("com velocity (default)",m.getComVelLinearDynamic(),f.getComVelLinearDynamic()); same("com acceleration (default)",m.getComAccLinearDynamic(),f.getComAccLinearDynamic()); same("cop x (default)",m.getCopXLinearDynamic(),f.getCopXLinearDynamic()); same("cop y (default)",m.getCopYLinearDynamic(),f.getCopYLinearDynamic()); same("com jerk (default)",m.getComJerkLinearDynamic(),f.getComJerkLinearDynamic());
  // against an independent computation as well, so that both cannot share a fault
  Phys px; px.h=(S)p.h; px.gx=(S)p.g[0]; px.gz=(S)p.g[2]; px.ratio=(LD)(S)p.m/(LD)(S)p.M; Phys py=px; py.gx=(S)p.g[1];
  checkDyn<S>("cop x",COP,m.getCopXLinearDynamic(0),p.N,(S)p.fb,(S)p.T,px); checkDyn<S>("cop y",COP,m.getCopYLinearDynamic(0),p.N,(S)p.fb,(S)p.T,py); checkDyn<S>("com velocity",VEL,m.getComVelLinearDynamic(0),p.N,(S)p.fb,(S)p.T,px);
  if(m.getNbSamples()!=p.N||m.getSamplingPeriod()!=(S)p.T||m.getFeedbackPeriod()!=(S)p.fb||m.getComHeight()!=(S)p.h||m.getMass()!=(S)p.m||m.getGravity()(0)!=(S)p.g[0]||m.getGravity()(2)!=(S)p.g[2]) mc::fail("getters","a getter does not return the value set last");
  if(!sameState<S>(m.getStateX(),p.st[0],p.moved)||!sameState<S>(m.getStateY(),p.st[1],p.moved)||!sameState<S>(m.getStateYaw(),p.st[2],p.moved)||m.getStateZ()(0)!=(S)p.h||m.getStateZ()(1)!=0||m.getStateZ()(2)!=0) mc::fail("state","the state of the pendulum is not the one set or reached last");
}
static const double NUDGE=1.0/32768;   // well below the library's tolerance
template<class S,class Mo,class P> static void setG(Mo& m,P& p,double x,double y,double z){ p.g[0]=x; p.g[1]=y; p.g[2]=z; m.setGravity(typename Type<S>::Vector3((S)x,(S)y,(S)z)); }
template<class S> static bool lipOp(LIPModel<S>& m,LP& p,int op)
{
  typedef typename Type<S>::VectorX V; V s(3); between();
  auto setSt=[&](int a,double x,double v,double c){ s<<(S)x,(S)v,(S)c; p.st[a][0]=x; p.st[a][1]=v; p.st[a][2]=c; if(a==0) m.setStateX(s); else if(a==1) m.setStateY(s); else m.setStateYaw(s); };
  switch(op)
  {
    case 0: m.setNbSamples(3); p.N=3; mc::note("setNbSamples(3)"); break;
    case 1: m.setNbSamples(1); p.N=1; mc::note("setNbSamples(1)"); break;
    case 2: m.setSamplingPeriod((S)0.4); p.T=p.fb=0.4; mc::note("setSamplingPeriod(0.4)"); break;
    case 3: m.setSamplingPeriod((S)1); p.T=p.fb=1; mc::note("setSamplingPeriod(1)"); break;
    case 4: p.fb=p.T/2; m.setFeedbackPeriod((S)p.fb); mc::note("setFeedbackPeriod(T/2)"); break;
    case 5: p.fb=p.T/4; m.setFeedbackPeriod((S)p.fb); mc::note("setFeedbackPeriod(T/4)"); break;
    case 6: p.h=0.45; m.setComHeight((S)p.h); mc::note("setComHeight(0.45)"); break;
    case 7: p.h=1.2; m.setComHeight((S)p.h); mc::note("setComHeight(1.2)"); break;
    case 8: setG<S>(m,p,gs[1][0],gs[1][1],gs[1][2]); mc::note("setGravity(1)"); break;
    case 9: setG<S>(m,p,gs[3][0],gs[3][1],gs[3][2]); mc::note("setGravity(3)"); break;
    case 10: if(p.M<3) return false; p.m=3; m.setMass(3); mc::note("setMass(3)"); break;
    case 11: p.m=0.5; m.setMass((S)0.5); mc::note("setMass(0.5)"); break;
    case 12: p.M=8; m.setTotalMass(8); mc::note("setTotalMass(8)"); break;
    case 13: if(p.m>3) return false; p.M=3; m.setTotalMass(3); mc::note("setTotalMass(3)"); break;
    case 14: setSt(0,2,-1,0.5); mc::note("setStateX"); break;
    case 15: setSt(1,0.25,3,-0.75); mc::note("setStateY"); break;
    // one number, by less than the tolerance of the library or alone
    case 16: setG<S>(m,p,p.g[0]+NUDGE,p.g[1],p.g[2]); mc::note("lateral gravity x, a little"); break;
    case 17: setG<S>(m,p,p.g[0],p.g[1]-NUDGE,p.g[2]); mc::note("lateral gravity y, a little"); break;
    case 18: setG<S>(m,p,p.g[0],p.g[1],p.g[2]+NUDGE); mc::note("vertical gravity, a little"); break;
    case 19: p.h+=NUDGE; m.setComHeight((S)p.h); mc::note("setComHeight, a little"); break;
    case 20: p.T+=NUDGE; p.fb=p.T; m.setSamplingPeriod((S)p.T); mc::note("setSamplingPeriod, a little"); break;
    case 21: if(p.m+NUDGE>p.M) return false; p.m+=NUDGE; m.setMass((S)p.m); mc::note("setMass, a little"); break;
    case 22: p.M+=NUDGE; m.setTotalMass((S)p.M); mc::note("setTotalMass, a little"); break;
    case 23: setSt(0,(S)(p.st[0][0]+NUDGE),(S)p.st[0][1],(S)(p.st[0][2]-NUDGE)); mc::note("setStateX, a little"); break;
    case 24: setG<S>(m,p,p.g[0],p.g[1],8.5); mc::note("vertical gravity only"); break;
    case 25: setG<S>(m,p,0.75,p.g[1],p.g[2]); mc::note("lateral gravity x only"); break;
    case 26: setG<S>(m,p,p.g[0],0.5,p.g[2]); mc::note("lateral gravity y only"); break;
    // feedback periods that do not divide the sample, or fit as often into it
    case 27: p.fb=0.4*p.T; m.setFeedbackPeriod((S)p.fb); mc::note("setFeedbackPeriod(0.4 T)"); break;
    case 28: p.fb=0.3*p.T; m.setFeedbackPeriod((S)p.fb); mc::note("setFeedbackPeriod(0.3 T)"); break;
    case 29: if(p.fb+NUDGE>p.T+9e-5) return false; p.fb+=NUDGE; m.setFeedbackPeriod((S)p.fb); mc::note("setFeedbackPeriod, a little"); break;
    case 30: setSt(2,-0.5,0.75,1.5); mc::note("setStateYaw"); break;
    case 31: m.updateStateX((S)0.75,(S)0.125); moveState(p.st[0],0.75,0.125); p.moved=true; mc::note("updateStateX"); break;
    case 32: m.updateStateY((S)-0.5,(S)0.25); moveState(p.st[1],-0.5,0.25); p.moved=true; mc::note("updateStateY"); break;
    case 33: m.updateStateYaw((S)1.5,(S)0.0625); moveState(p.st[2],1.5,0.0625); p.moved=true; mc::note("updateStateYaw"); break;
    case 34: m.computeDynamics(); mc::note("computeDynamics"); break;
    case 35: m.setNbSamples(++p.N); mc::note("one more sample"); break;
    case 36: if(p.N<2) return false; m.setNbSamples(--p.N); mc::note("one sample less"); break;
    case 37: mc::note("the model is copied"); copied(m,[&](LIPModel<S>& o){ s<<9,8,7; o.setStateX(s); o.setStateY(s); o.setStateYaw(s); o.setComHeight((S)2.5); o.setGravity(typename Type<S>::Vector3(1,2,7)); o.setNbSamples(p.N+1); o.computeDynamics(); }); break;
  }
  return true;
}
// three different triangles with the same number of vertices
template<class S> static typename Type<S>::vectorOfVector2 basePoly(int k){ typedef typename Type<S>::Vector2 V2; typename Type<S>::vectorOfVector2 v; v.push_back(V2(-1,-1)); v.push_back(V2(1,-1)); v.push_back(V2((S)(k==2?0.25:0),(S)(k==3?1+1.0/32768:1))); return v; }
struct BP { int cop=0,com=0; int N=1; double T=1,h=0; double g[3]={gs[0][0],gs[0][1],gs[0][2]}; double m=0,M=1,vl=1,al=1,jl=1,cx=0,cy=0; double st[5][3]={{0}}; bool moved=false; };
template<class S> static bool baseOp(BaseModel<S>& m,BP& p,int op)
{
  typedef typename Type<S>::VectorX V; V s(3); s.setZero(); between();
  auto setSt=[&](int a,double x,double v,double c){ s<<(S)x,(S)v,(S)c; p.st[a][0]=x; p.st[a][1]=v; p.st[a][2]=c; if(a==0) m.setStateX(s); else if(a==1) m.setStateY(s); else if(a==2) m.setStateRoll(s); else if(a==3) m.setStatePitch(s); else m.setStateYaw(s); };
  switch(op)
  {
    case 0: m.setNbSamples(3); p.N=3; break;
    case 1: m.setNbSamples(2); p.N=2; break;
    case 2: m.setSamplingPeriod((S)0.4); p.T=0.4; break;
    case 3: m.setSamplingPeriod((S)1); p.T=1; break;
    case 4: p.h=0.3; m.setComHeight((S)p.h); break;
    case 5: p.h=0.1; m.setComHeight((S)p.h); break;
    case 6: setG<S>(m,p,gs[1][0],gs[1][1],gs[1][2]); break;
    case 7: setG<S>(m,p,gs[3][0],gs[3][1],gs[3][2]); break;
    case 8: if(p.M<3) return false; p.m=3; m.setMass(3); break;
    case 9: p.m=0.5; m.setMass((S)0.5); break;
    case 10: p.M=8; m.setTotalMass(8); break;
    case 11: if(p.m>3) return false; p.M=3; m.setTotalMass(3); break;
    case 12: p.vl=0.7; m.setVelocityLimit((S)0.7); break;
    case 13: p.al=0.6; m.setAccelerationLimit((S)0.6); break;
    case 14: p.jl=0.5; m.setJerkLimit((S)0.5); break;
    case 15: p.cx=0.2; m.setTiltContactPointX((S)0.2); break;
    case 16: p.cy=0.3; m.setTiltContactPointY((S)0.3); break;
    case 17: for(int k=0;k<5;++k) setSt(k,k+1,0.5-k,0.25*k); break;
    case 18: setG<S>(m,p,p.g[0]+NUDGE,p.g[1],p.g[2]); break;
    case 19: setG<S>(m,p,p.g[0],p.g[1]-NUDGE,p.g[2]); break;
    case 20: setG<S>(m,p,p.g[0],p.g[1],p.g[2]+NUDGE); break;
    case 21: p.h+=NUDGE; m.setComHeight((S)p.h); break;
    case 22: p.T+=NUDGE; m.setSamplingPeriod((S)p.T); break;
    case 23: if(p.m+NUDGE>p.M) return false; p.m+=NUDGE; m.setMass((S)p.m); break;
    case 24: p.M+=NUDGE; m.setTotalMass((S)p.M); break;
    case 25: p.vl+=NUDGE; m.setVelocityLimit((S)p.vl); break;
    case 26: p.al+=NUDGE; m.setAccelerationLimit((S)p.al); break;
    case 27: p.jl+=NUDGE; m.setJerkLimit((S)p.jl); break;
    case 28: p.cx+=NUDGE; m.setTiltContactPointX((S)p.cx); break;
    case 29: p.cy-=NUDGE; m.setTiltContactPointY((S)p.cy); break;
    case 30: for(int k=0;k<5;++k) setSt(k,(S)(p.st[k][0]+NUDGE),(S)p.st[k][1],(S)(p.st[k][2]-NUDGE)); break;
    case 31: setG<S>(m,p,p.g[0],p.g[1],8.5); break;
    case 32: setG<S>(m,p,0.75,p.g[1],p.g[2]); break;
    case 33: setG<S>(m,p,p.g[0],0.5,p.g[2]); break;
    case 34: m.updateStateX((S)0.75,(S)0.125); moveState(p.st[0],0.75,0.125); p.moved=true; break;
    case 35: m.updateStateY((S)-0.5,(S)0.25); moveState(p.st[1],-0.5,0.25); p.moved=true; break;
    case 36: m.computeDynamics(); break;
    case 37: m.setNbSamples(++p.N); break;
    case 38: setSt(1,-2,0.75,-0.25); break;
    case 39: setSt(3,0.125,-0.75,0.25); break;
    case 40: p.cop=1; m.setCopSupportConvexPolygon(ConvexPolygon<S>(basePoly<S>(1))); break;
    case 41: p.cop=2; m.setCopSupportConvexPolygon(ConvexPolygon<S>(basePoly<S>(2))); break;
    case 42: p.com=1; m.setComSupportConvexPolygon(ConvexPolygon<S>(basePoly<S>(1))); break;
    case 44: copied(m,[&](BaseModel<S>& o){ s<<9,8,7; o.setStateX(s); o.setStateY(s); o.setStateYaw(s); o.setStateRoll(s); o.setStatePitch(s); o.setComHeight((S)2.5); o.setGravity(typename Type<S>::Vector3(1,2,7)); o.setNbSamples(p.N+1); o.setVelocityLimit(9); o.setTiltContactPointX(9); o.setCopSupportConvexPolygon(ConvexPolygon<S>(basePoly<S>(p.com==3?1:3))); o.setComSupportConvexPolygon(ConvexPolygon<S>(basePoly<S>(2))); o.computeDynamics(); }); break;
    case 43: p.com=3; m.setComSupportConvexPolygon(ConvexPolygon<S>(basePoly<S>(3))); break;
  }
  mc::note("base op %d",op);
  return true;
}
template<class S> static void cmpBase(BaseModel<S>& m,const BP& p)
{
  BaseModel<S> f(p.N,(S)p.T,true); if(p.M>=f.getMass()) f.setTotalMass((S)p.M); if(p.m>0) f.setMass((S)p.m); f.setGravity(typename Type<S>::Vector3((S)p.g[0],(S)p.g[1],(S)p.g[2])); f.setComHeight((S)p.h);
  same("base position",m.getBasePosLinearDynamic(),f.getBasePosLinearDynamic()); same("base velocity",m.getBaseVelLinearDynamic(),f.getBaseVelLinearDynamic()); same("base acceleration",m.getBaseAccLinearDynamic(),f.getBaseAccLinearDynamic()); same("base jerk",m.getBaseJerkLinearDynamic(),f.getBaseJerkLinearDynamic());
  same("tilt angle",m.getBaseTiltAngleLinearDynamic(),f.getBaseTiltAngleLinearDynamic()); same("tilt velocity",m.getBaseTiltAngularVelLinearDynamic(),f.getBaseTiltAngularVelLinearDynamic());
  if(p.m>0){ same("base cop x",m.getCopXLinearDynamic(),f.getCopXLinearDynamic()); same("base cop y",m.getCopYLinearDynamic(),f.getCopYLinearDynamic()); }
  Phys px; px.h=(S)p.h; px.gx=(S)p.g[0]; px.gz=(S)p.g[2]; px.ratio=(LD)(S)p.m/(LD)(S)p.M; Phys py=px; py.gx=(S)p.g[1];
  checkDyn<S>("base cop x",COP,m.getCopXLinearDynamic(),p.N,(S)p.T,(S)p.T,px); checkDyn<S>("base cop y",COP,m.getCopYLinearDynamic(),p.N,(S)p.T,(S)p.T,py); checkDyn<S>("base velocity",VEL,m.getBaseVelLinearDynamic(),p.N,(S)p.T,(S)p.T,px); checkDyn<S>("tilt angle",POS2,m.getBaseTiltAngleLinearDynamic(),p.N,(S)p.T,(S)p.T,px);
  if(m.getNbSamples()!=p.N||m.getSamplingPeriod()!=(S)p.T||m.getComHeight()!=(S)p.h||m.getMass()!=(S)p.m||m.getVelocityLimit()!=(S)p.vl||m.getAccelerationLimit()!=(S)p.al||m.getJerkLimit()!=(S)p.jl||m.getTiltContactPointX()!=(S)p.cx||m.getTiltContactPointY()!=(S)p.cy) mc::fail("base-getters","a getter of the base does not return the value set last (or the default)");
  if(!sameState<S>(m.getStateX(),p.st[0],p.moved)||!sameState<S>(m.getStateY(),p.st[1],p.moved)||!sameState<S>(m.getStateRoll(),p.st[2],false)||!sameState<S>(m.getStatePitch(),p.st[3],false)||!sameState<S>(m.getStateYaw(),p.st[4],false)) mc::fail("base-state","a state of the base is not the one set or reached last");
  auto samePoly=[](const ConvexPolygon<S>& c,int k){ auto v=basePoly<S>(k); if(k==0) return true; if(c.getNbVertices()!=3) return false; for(int q=0;q<3;++q) if(c.getVertices()[q]!=v[q]) return false; return true; };
  if(!samePoly(m.getCopSupportConvexPolygon(),p.cop)||!samePoly(m.getComSupportConvexPolygon(),p.com)) mc::fail("base-polygons","a support polygon of the base is not the one set last");
}
template<class S> static void pointHist(uint64_t i,int depth,int nops=8)
{
  NoDynamicModel<S> m; int N=1; double T=1,vl=1,al=1,jl=1,s0=0; mc::Radix r(i); typename Type<S>::VectorX s(3); s.setZero();
  for(int k=0;k<depth;++k)
  {
    int op=r(nops); mc::note("point op %d",op); between();
    switch(op){ case 0: m.setNbSamples(3); N=3; break; case 1: m.setNbSamples(2); N=2; break; case 2: m.setSamplingPeriod((S)0.4); T=0.4; break; case 3: m.setSamplingPeriod((S)2); T=2; break; case 4: m.setVelocityLimit((S)0.3); vl=0.3; break; case 5: m.setAccelerationLimit((S)0.2); al=0.2; break; case 6: m.setJerkLimit((S)0.1); jl=0.1; break; case 7: s(0)=4; m.setState(s); s0=4; break;
      case 13: copied(m,[&](NoDynamicModel<S>& o){ typename Type<S>::VectorX q(3); q<<9,8,7; o.setState(q); o.setNbSamples(N+1); o.setSamplingPeriod((S)(T*2)); o.setVelocityLimit(9); o.computeDynamics(); }); break;
      case 8: T+=NUDGE; m.setSamplingPeriod((S)T); break; case 9: vl+=NUDGE; m.setVelocityLimit((S)vl); break; case 10: al+=NUDGE; m.setAccelerationLimit((S)al); break; case 11: jl+=NUDGE; m.setJerkLimit((S)jl); break; case 12: s0=(S)(s0+NUDGE); s(0)=(S)s0; m.setState(s); break; }
    Phys p; checkDyn<S>("position",POS,m.getPosLinearDynamic(),N,(S)T,(S)T,p); checkDyn<S>("velocity",VEL,m.getVelLinearDynamic(),N,(S)T,(S)T,p); checkDyn<S>("acceleration",ACC,m.getAccLinearDynamic(),N,(S)T,(S)T,p); checkDyn<S>("jerk",JERK,m.getJerkLinearDynamic(),N,(S)T,(S)T,p);
    if(m.getNbSamples()!=N||m.getSamplingPeriod()!=(S)T||m.getVelocityLimit()!=(S)vl||m.getAccelerationLimit()!=(S)al||m.getJerkLimit()!=(S)jl||m.getState()(0)!=s0) mc::fail("point-getters","a getter of the point model does not return the value set last");
  }
}
template<class S> static void footHist(uint64_t i,int depth,int nops=11)
{
  typedef typename Type<S>::VectorX V; typedef typename Type<S>::Vector2 V2; typedef typename Type<S>::vectorOfVector2 VV; HumanoidFootModel<S> m(2,(S)1); mc::Radix r(i); V st[4]; for(V& v:st) v=V::Zero(3); double mh=0; int N=2; double T=1;
  VV tri,quad,tri2,quad2; tri.push_back(V2(0,0)); tri.push_back(V2(1,0)); tri.push_back(V2(0,1)); quad.push_back(V2(0,0)); quad.push_back(V2(1,0)); quad.push_back(V2(1,1)); quad.push_back(V2(0,1)); tri2=tri; tri2[2]=V2((S)0.25,1); quad2=quad; for(V2& v:quad2) v(0)+=(S)0.5;
  VV kin,cop; auto poly=[&](bool k,const VV& v){ if(k){ m.setKinematicConvexPolygon(ConvexPolygon<S>(v)); kin=v; } else { m.setCopConvexPolygon(ConvexPolygon<S>(v)); cop=v; } };
  auto set=[&](int a){ if(a==0) m.setStateX(st[0]); else if(a==1) m.setStateY(st[1]); else if(a==2) m.setStateZ(st[2]); else m.setStateYaw(st[3]); };
  for(int k=0;k<depth;++k)
  {
    int op=r(nops); mc::note("foot op %d",op); between();
    if(op<4){ st[op](0)=(S)(k+op+1); set(op); }
    else switch(op){ case 4: m.setMaxHeight((S)0.05); mh=0.05; break; case 5: poly(false,tri); break; case 6: poly(true,quad); break; case 7: poly(false,quad); break; case 8: poly(true,tri); break; case 9: m.setNbSamples(N=1); break; case 10: m.setSamplingPeriod((S)(T=0.5)); break;
      case 11: mh+=NUDGE; m.setMaxHeight((S)mh); break; case 12: T+=NUDGE; m.setSamplingPeriod((S)T); break; case 13: poly(false,tri2); break; case 14: poly(true,quad2); break; case 15: poly(false,quad2); break; case 16: poly(true,tri2); break;
      case 29: { VV v=cop; for(V2& q:v) q(1)+=(S)NUDGE; if(v.size()) poly(false,v); break; } case 30: { VV v=kin; for(V2& q:v) q(0)-=(S)NUDGE; if(v.size()) poly(true,v); break; }
      case 31: copied(m,[&](HumanoidFootModel<S>& o){ V q(3); q<<9,8,7; o.setStateX(q); o.setStateY(q); o.setStateZ(q); o.setStateYaw(q); o.setMaxHeight(3); o.setNbSamples(N+1); o.setCopConvexPolygon(ConvexPolygon<S>(quad2)); o.setKinematicConvexPolygon(ConvexPolygon<S>(tri2)); }); break;
      default: { int e=op-17; st[e/3](e%3)+=(S)NUDGE; set(e/3); } }
    mc::checked(); mc::transition();
    auto same=[](const ConvexPolygon<S>& p,const VV& v){ if(p.getNbVertices()!=(int)v.size()) return false; for(size_t q=0;q<v.size();++q) if(p.getVertices()[q]!=v[q]) return false; return true; };
    if(m.getStateX()!=st[0]||m.getStateY()!=st[1]||m.getStateZ()!=st[2]||m.getStateYaw()!=st[3]||m.getMaxHeight()!=(S)mh||!same(m.getCopConvexPolygon(),cop)||!same(m.getKinematicConvexPolygon(),kin)||m.getNbSamples()!=N||m.getSamplingPeriod()!=(S)T) mc::fail("foot-getters","a getter of the foot does not return the value set last");
  }
  mc::traceDone();
}
void modelHistories(int D)
{
  mc::cases("pendulum histories",mc::ipow(16,D),[&](uint64_t i){
    mc::Radix r(i); LIPModel<double> m; LP p; LIPModel<float> mf; LP pf; int ops[8];
    for(int k=0;k<D;++k){ ops[k]=r(16); if(!lipOp(m,p,ops[k])) return; }
    cmpLip(m,p); mc::Hash h; h(1)(p.N).d(p.T).d(p.fb).d(p.h).d(p.g[0]).d(p.g[1]).d(p.g[2]).d(p.m).d(p.M); mc::state(h.h); mc::traceDone();
    if(i%3==0||mc::ctx.thorough){ for(int k=0;k<D;++k) lipOp(mf,pf,ops[k]); cmpLip(mf,pf); }
    if(i==777) mc::sample();
  });
  // from a configured model
  mc::cases("pendulum histories (configured)",mc::ipow(16,D),[&](uint64_t i){
    mc::Radix r(i); LIPModel<double> m(4,0.2,true); LP p; p.N=4; p.T=0.2; p.fb=0.1; p.h=0.7; for(int k=0;k<3;++k) p.g[k]=gs[2][k]; p.m=5; p.M=9; applyLip(m,p);
    for(int k=0;k<D;++k) if(!lipOp(m,p,r(16))) return;
    cmpLip(m,p); mc::traceDone();
  });
  mc::cases("base histories",mc::ipow(18,D),[&](uint64_t i){
    mc::Radix r(i); int ops[8]; BaseModel<double> m; BP p; for(int k=0;k<D;++k){ ops[k]=r(18); if(!baseOp(m,p,ops[k])) return; }
    cmpBase(m,p); mc::Hash h; h(2)(p.N).d(p.T).d(p.h).d(p.g[0]).d(p.g[1]).d(p.g[2]).d(p.m).d(p.M).d(p.vl).d(p.al).d(p.jl).d(p.cx).d(p.cy).d(p.st[0][0]); mc::state(h.h); mc::traceDone();
    BaseModel<float> mf(2,0.5f,true); BP pf; pf.N=2; pf.T=0.5; for(int k=0;k<D;++k) if(!baseOp(mf,pf,ops[k])) return; cmpBase(mf,pf);
  });
  // changes of one number, by less than the tolerance of the library too
  mc::cases("pendulum, one number at a time",38*38*38,[&](uint64_t i){ for(int f=0;f<2;++f){ mc::Radix r(i); LP p; p.N=4; p.T=0.2; p.fb=f?0.2:0.1; p.h=0.7; for(int k=0;k<3;++k) p.g[k]=gs[f?0:2][k]; p.m=5; p.M=9; int o[3]={(int)r(38),(int)r(38),(int)r(38)}; LIPModel<double> m(4,0.2,true); applyLip(m,p); bool ok=true; LP q=p,u=p; for(int k=0;ok&&k<3;++k) ok=lipOp(m,p,o[k]); if(ok) cmpLip(m,p);
    if(ok&&i%3==0){ LIPModel<float> mf(4,0.2f,true); applyLip(mf,q); for(int k=0;k<3;++k) lipOp(mf,q,o[k]); cmpLip(mf,q); }
    if(ok&&i%2==0){ mc::clearNotes(); mc::note("predictions computed on request"); LIPModel<double> w(4,0.2,false); applyLip(w,u); if(f) w.computeDynamics(); for(int k=0;k<3;++k) lipOp(w,u,o[k]); w.computeDynamics(); cmpLip(w,u); } mc::clearNotes(); mc::traceDone(); } });
  mc::cases("base, one number at a time",45*45*45,[&](uint64_t i){ mc::Radix r(i); int o[3]={(int)r(45),(int)r(45),(int)r(45)};
    auto run=[&](auto& m,bool req){ BP p; p.N=2; p.T=0.5; if(!baseOp(m,p,10)||!baseOp(m,p,8)||!baseOp(m,p,17)) return; if(req) m.computeDynamics(); for(int k=0;k<3;++k) if(!baseOp(m,p,o[k])) return; if(req) m.computeDynamics(); cmpBase(m,p); mc::traceDone(); };
    BaseModel<double> m(2,0.5,true); run(m,false); if(i%4==0){ mc::clearNotes(); BaseModel<float> mf(2,0.5f,true); run(mf,false); } if(i%4==1){ mc::clearNotes(); mc::note("predictions computed on request"); BaseModel<double> w(2,0.5,false); run(w,true); } });
  mc::cases("point, one number at a time",mc::ipow(14,3),[&](uint64_t i){ pointHist<double>(i,3,14); mc::clearNotes(); pointHist<float>(i,3,14); });
  mc::cases("foot, one number at a time",mc::ipow(32,3),[&](uint64_t i){ footHist<double>(i,3,32); mc::clearNotes(); if(i%3==0) footHist<float>(i,3,32); });
  mc::cases("point histories",mc::ipow(8,D+1),[&](uint64_t i){ pointHist<double>(i,D+1); pointHist<float>(i,D+1); mc::Hash h; h(3)(i); mc::state(h.h); });
  mc::cases("foot histories",mc::ipow(11,D+1),[&](uint64_t i){ footHist<double>(i,D+1); mc::Hash h; h(4)(i); mc::state(h.h); });
}
// another instance of every model, busy with other parameters
template<class S> static void otherModels(int k)
{
  typedef typename Type<S>::VectorX V; V s(3); s<<(S)0.3,(S)(0.1*k),(S)-2;
  LIPModel<S> l(2+k%3,(S)0.3,true); l.setFeedbackPeriod((S)0.15); l.setComHeight((S)0.6); l.setTotalMass(20); l.setMass(7); l.setGravity(typename Type<S>::Vector3(1,(S)0.5,8)); l.setStateX(s); l.updateStateX((S)0.7,(S)0.2);
  BaseModel<S> b(1+k%4,(S)0.45,true); b.setTotalMass(20); b.setMass(9); b.setComHeight((S)0.2); b.setVelocityLimit(3); b.setStateX(s); b.updateStateX(1,(S)0.3);
  NoDynamicModel<S> n(2+k%2,(S)0.6,true); n.setState(s); n.updateState(2,(S)0.1);
  HumanoidFootModel<S> f(2,(S)0.2); f.setStateX(s); f.updateStateX(typename Type<S>::Vector3(1,0,0),1,(S)0.4);
}
void otherModelsAct(){ static int k=0; ++k; if(k%3==0) otherModels<float>(k); else otherModels<double>(k); }
static uint64_t codes(int left); static uint64_t codeAt(int left,uint64_t idx); template<class S> static void footWalk(int n,double tick,uint64_t code,int axis,uint64_t startCode,int mode,double unit=1);
void footHistories(int n)
{
  for(int L=1;L<=n;++L) mc::cases("foot increments",codes(L),[&](uint64_t i){ for(int ax=0;ax<3;++ax) for(uint64_t s=0;s<27;s+=4){ footWalk<double>(L,0.1,codeAt(L,i),ax,s,(int)(s%3)); if(s%8==4) footWalk<float>(L,0.1,codeAt(L,i),ax,s,0); } });
}
MC_CHECK(D03){ modelHistories(mc::ctx.thorough?6:5); }

// ---- I01 --------------------------------------------------------------------
template<class S> static void interpCase(uint64_t i,double Td,double unit=1)
{
  typedef typename Type<S>::Vector3 V3; typedef typename Type<S>::Vector4 V4; typedef typename Type<S>::VectorX V;
  static const double vals[]={0,1,-0.4}; mc::Radix r(i); V3 a,b; for(int k=0;k<3;++k){ a(k)=(S)(unit*vals[r(3)]); b(k)=(S)(unit*vals[r(3)]); }
  S T=(S)Td; Interpolator<S> ip; V f; f.setConstant(12,(S)7);
  ip.computePolynomialNormalisedFactors(f,a,b,T);
  double sc=unit+std::fabs((double)a(0))+std::fabs((double)b(0))+Td*(std::fabs((double)a(1))+std::fabs((double)b(1)))+Td*Td*(std::fabs((double)a(2))+std::fabs((double)b(2)));
  double tol=Prec<S>::tol()*sc*20;
  auto eval=[&](double t,int der,bool leftOf)->double{
    // the published selection at exactly T/3 and 2T/3 is either side: probe just beside
    V4 q; double tt=t*Td; double e=1e-6*Td; ip.selectFactors(q,f,(S)(leftOf? tt-e: tt+e),T);
    return der==0? (double)Tools::polynomValue<S>(q,(S)t): der==1? (double)Tools::dPolynomValue<S>(q,(S)t): (double)Tools::ddPolynomValue<S>(q,(S)t); };
  auto chk=[&](const char* w,double got,double want){ mc::checked(); if(!(std::fabs(got-want)<=tol*10)) mc::fail(std::string("interp-")+w,"%s T=%g from (%g,%g,%g) to (%g,%g,%g): %s is %g instead of %g",Prec<S>::name(),Td,(double)a(0),(double)a(1),(double)a(2),(double)b(0),(double)b(1),(double)b(2),w,got,want); };
  chk("initial position",eval(0,0,false),a(0)); chk("initial velocity",eval(0,1,false),a(1)*Td); chk("initial acceleration",eval(0,2,false),a(2)*Td*Td);
  chk("final position",eval(1,0,true),b(0)); chk("final velocity",eval(1,1,true),b(1)*Td); chk("final acceleration",eval(1,2,true),b(2)*Td*Td);
  for(int k=1;k<=2;++k) for(int d=0;d<3;++d){ const char* w[]={"position continuity","velocity continuity","acceleration continuity"}; chk(w[d],eval(k/3.0,d,true),eval(k/3.0,d,false)); }
  // the selected piece must be the one of its third: probes inside every third
  for(int k=0;k<12;++k){ double t=(k+0.5)/12; V4 q; ip.selectFactors(q,f,(S)(t*Td),T); int piece=(int)(t*3); double want=0; for(int c=0;c<4;++c) want=want*t+(double)f(4*piece+c); chk("piece selection",(double)Tools::polynomValue<S>(q,(S)t),want);
    // derivative helpers agree with the polynomial
    double d1=3*(double)q(0)*t*t+2*(double)q(1)*t+(double)q(2), d2=6*(double)q(0)*t+2*(double)q(1); chk("first derivative",(double)Tools::dPolynomValue<S>(q,(S)t),d1); chk("second derivative",(double)Tools::ddPolynomValue<S>(q,(S)t),d2); }
  // and close to the ends of every third, on both sides
  for(int k=0;k<300;++k){ double t=(k+0.5)/300; V4 q; ip.selectFactors(q,f,(S)(t*Td),T); int piece=(int)(t*3); for(int c=0;c<4;++c) chk("piece selection",(double)q(c),(double)f(4*piece+c)); }
  mc::transition(); mc::traceDone(); mc::Hash h; h(i).d(Td); mc::state(h.h); mc::outcome(mc::Hash().d(f(5)).d(f(9)).h);
}
// a foot advanced in increments of k ticks (every composition), target re-chosen at each increment
// mode 0: targets elsewhere, 1: targets at the starting position and at zero, 2: moving targets
template<class S> static void footWalk(int n,double tick,uint64_t code,int axis,uint64_t startCode,int mode,double unit)
{
  typedef typename Type<S>::VectorX V; typedef typename Type<S>::Vector3 V3;
  HumanoidFootModel<S> m(3,(S)0.1); mc::Radix r(code), sc(startCode); static const double vals[]={0,0.2,-0.1};
  V s(3); s(0)=(S)(unit*vals[sc(3)]); s(1)=(S)(unit*2*vals[sc(3)]); s(2)=(S)(unit*3*vals[sc(3)]);
  V o(3); o<<(S)0.11,(S)0.22,(S)0.33;
  m.setStateX(axis==0?s:o); m.setStateY(axis==1?s:o); m.setStateZ(axis==2?s:o); m.setStateYaw(o);
  int left=n; double target=0,tv=0,ta=0; const double tg[]={mode==1?(double)s(0):0.3*unit,mode==1?0.0:-0.2*unit};
  mc::note("foot axis %d ticks %d of %g s start (%g,%g,%g)",axis,n,tick,(double)s(0),(double)s(1),(double)s(2));
  auto st=[&]()->const V&{ return axis==0?m.getStateX():axis==1?m.getStateY():m.getStateZ(); };
  while(left>0)
  {
    int k=1+r(left); { int w=r(2); target=tg[w]; if(mode==2){ tv=unit*(w?0:0.5); ta=unit*(w?-1:0.25); } }
    V before=st(); S T=(S)(left*tick), t=(S)(k*tick);
    mc::note(" advance %d of %d ticks toward %g",k,left,target);
    V3 obj((S)target,(S)tv,(S)ta); between();
    if(axis==0) m.updateStateX(obj,T,t); else if(axis==1) m.updateStateY(obj,T,t); else m.updateStateZ(obj,T,t);
    // independent computation of the same three-piece cubic: solve the 12 conditions
    Eigen::Matrix<double,12,12> A; A.setZero(); Eigen::Matrix<double,12,1> y; y.setZero(); int row=0;
    auto put=[&](int piece,double x,int d,double sgn){ double c[4]={x*x*x,x*x,x,1}; if(d==1){ c[0]=3*x*x; c[1]=2*x; c[2]=1; c[3]=0;} if(d==2){ c[0]=6*x; c[1]=2; c[2]=0; c[3]=0; } for(int q=0;q<4;++q) A(row,4*piece+q)+=sgn*c[q]; };
    double TT=left*tick;
    double bi[3]={(double)before(0),(double)before(1)*TT,(double)before(2)*TT*TT}, be[3]={target,tv*TT,ta*TT*TT};
    for(int d=0;d<3;++d){ put(0,0,d,1); y(row++)=bi[d]; } for(int d=0;d<3;++d){ put(2,1,d,1); y(row++)=be[d]; }
    for(int kk=1;kk<=2;++kk) for(int d=0;d<3;++d){ put(kk-1,kk/3.0,d,1); put(kk,kk/3.0,d,-1); ++row; }
    Eigen::Matrix<double,12,1> c=A.fullPivLu().solve(y);
    double x=(double)k/left; int piece= x<=1.0/3+1e-9?0: x<=2.0/3+1e-9?1:2; double* q=c.data()+4*piece;
    double want[3]={((q[0]*x+q[1])*x+q[2])*x+q[3],((3*q[0]*x+2*q[1])*x+q[2])/TT,(6*q[0]*x+2*q[1])/(TT*TT)};
    double mag=unit+std::fabs(bi[0])+std::fabs(bi[1])+std::fabs(bi[2]); double tol=Prec<S>::tol()*mag*100;
    mc::checked(3); mc::transition();
    for(int d=0;d<3;++d) if(!(std::fabs((double)st()(d)-want[d])*std::pow(TT,d)<=tol)) mc::fail("foot-step","%s axis %d: after %d of %d ticks toward %g component %d is %g instead of %g",Prec<S>::name(),axis,k,left,target,d,(double)st()(d),want[d]);
    left-=k;
  }
  double tol= unit*(sizeof(S)==4? 2e-3: 1e-6);
  if(!(std::fabs((double)st()(0)-target)<=tol)||!(std::fabs((double)st()(1)-tv)*tick<=tol)||!(std::fabs((double)st()(2)-ta)*tick*tick<=tol)) mc::fail("foot-landing","%s axis %d: lands at (%g,%g,%g), planned (%g,%g,%g)",Prec<S>::name(),axis,(double)st()(0),(double)st()(1),(double)st()(2),target,tv,ta);
  if((axis!=0&&m.getStateX()!=o)||(axis!=1&&m.getStateY()!=o)||(axis!=2&&m.getStateZ()!=o)||m.getStateYaw()!=o) mc::fail("foot-axis","moving along axis %d changes another axis",axis);
  mc::traceDone(); mc::Hash h; h(n)(code)(axis)(startCode)(mode); mc::state(h.h);
}
// enumerate codes: mixed radix over (composition,targets)
static uint64_t codes(int left){ if(left==0) return 1; uint64_t s=0; for(int k=1;k<=left;++k) s+=2*codes(left-k); return s; }
static uint64_t codeAt(int left,uint64_t idx){ // -> radix code consumed by footWalk
  if(left==0) return 0; for(int k=1;k<=left;++k) for(int t=0;t<2;++t){ uint64_t c=codes(left-k); if(idx<c) return (uint64_t)(k-1)+ (uint64_t)left*(t+2*codeAt(left-k,idx)); idx-=c; } abort(); }
MC_CHECK(I01)
{
  static const double durs[]={0.1,0.5,1.0,3.0,0.02}; int nd= mc::ctx.thorough?5:3;
  mc::cases("interpolation",729*nd,[&](uint64_t i){ double T=durs[i%nd]; mc::note("boundary code %llu T=%g",(unsigned long long)(i/nd),T); interpCase<double>(i/nd,T); interpCase<float>(i/nd,T); if(i==1000) mc::sample(); for(double u: {1e-5,1e-3,200.0}){ interpCase<double>(i/nd,T,u); interpCase<float>(i/nd,T,u); } interpCase<double>(i/nd,40*T); });
  int n= mc::ctx.thorough?9:7;
  for(int L=1;L<=n;++L){ uint64_t nc=codes(L);
    mc::cases("foot increments",nc,[&](uint64_t i){ uint64_t code=codeAt(L,i); for(int ax=0;ax<3;++ax) for(uint64_t s=0;s<27;s+= (ax==0||mc::ctx.thorough)?1:5){ footWalk<double>(L,0.1,code,ax,s,0); if(s%9==4) footWalk<float>(L,0.1,code,ax,s,0); }
      if(L<=(mc::ctx.thorough?6:4)) for(int ax=0;ax<3;++ax) for(uint64_t s=0;s<27;++s) for(int md=1;md<3;++md){ footWalk<double>(L,0.1,code,ax,s,md); if(L<=3) footWalk<float>(L,0.1,code,ax,s,md); }
      if(L<=(mc::ctx.thorough?6:4)) for(int ax=0;ax<3;++ax) for(uint64_t s=0;s<27;++s) for(int md=0;md<3;++md){ static const double us[]={1e-5,1e-3,100,1},tk[]={0.1,0.005,2}; for(int u=0;u<4;++u) for(int t=0;t<3;++t) if(u<3||t){ footWalk<double>(L,tk[t],code,ax,s,md,us[u]); if((s+u+t)%5==0&&t==0) footWalk<float>(L,tk[t],code,ax,s,md,us[u]); } }
      if(i==100) mc::sample(); }); }
}
