// Programs that use an instance of each kind of the library through its public interface, and hash what they observe.
#pragma once
#include "mc.h"
#include <mpc-walkgen/trajectory_walkgen.h>
#include <mpc-walkgen/zebulon_walkgen.h>
#include <mpc-walkgen/humanoid_walkgen.h>
#include <mpc-walkgen/interpolator.h>
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>
#include <mpc-walkgen/qpsolver.h>
#include <mpc-walkgen/qpsolverfactory.h>
#include <memory>
using namespace MPCWalkgen;
static thread_local uint64_t* sink=nullptr;   // where the running thread's observations go
static void see(const void* p,size_t n){ if(!sink) return; const unsigned char* c=(const unsigned char*)p; for(size_t i=0;i<n;++i){ *sink^=c[i]; *sink*=1099511628211ull; } }
template<class X> static void seeM(const X& x){ for(int i=0;i<x.rows();++i) for(int j=0;j<x.cols();++j){ auto v=x(i,j); if(v==0) v=0; see(&v,sizeof v); } int k[2]={(int)x.rows(),(int)x.cols()}; see(k,sizeof k); }
struct Prog { uint64_t seen=1469598103934665603ull; int n=0; virtual ~Prog(){} virtual void call(int k)=0; virtual void cycle(){ for(int k=0;k<n;++k) call(k); }   // calls that may be repeated for ever
  void run(int a,int b){ uint64_t* was=sink; sink=&seen; for(int k=a;k<b&&k<n;++k) call(k); sink=was; } };
template<class S> struct Base : Prog
{
  TEMPLATE_TYPEDEF(S)
  static VectorX v3(double a,double b,double c){ VectorX v(3); v<<(S)a,(S)b,(S)c; return v; }
  static VectorX ref(int n,double a){ VectorX v(n); for(int i=0;i<n;++i) v(i)=(S)(a*((i*5)%7-2)); return v; }
  static ConvexPolygon<S> poly(std::vector<std::pair<double,double>> p){ vectorOfVector2 v; for(auto& q:p) v.push_back(Vector2((S)q.first,(S)q.second)); return ConvexPolygon<S>(v); }
};
template<class S> struct Traj : Base<S>
{
  TrajectoryWalkgen<S> g; double f; int N; typedef Base<S> B;
  Traj(int var):f(var?0.75:1),N(var?2:3){ this->n=4; }
  void call(int k)
  {
    switch(k)
    {
      case 0: { g.setNbSamples(N); g.setSamplingPeriod((S)(0.25*f)); TrajectoryWalkgenWeighting<S> w; w.velocityTracking=(S)f; w.positionTracking=2; w.jerkMinimization=(S)0.01; g.setWeightings(w); TrajectoryWalkgenConfig<S> c; c.withMotionConstraints=true; g.setConfig(c); g.setVelRefInWorldFrame(B::ref(N,0.1*f)); g.setPosRefInWorldFrame(B::ref(N,0.3*f)); g.setVelLimit((S)f); g.setAccLimit((S)(2*f)); g.setJerkLimit((S)(9*f)); g.setState(B::v3(0.1*f,0.2,-0.3)); break; }
      case 1: case 3: { bool r=g.solve((S)(0.125*f)); see(&r,1); break; }
      case 2: g.setNbSamples(N+1); g.setVelRefInWorldFrame(B::ref(N+1,-0.2*f)); g.setPosRefInWorldFrame(B::ref(N+1,0.4)); break;
    }
    if(k%2){ seeM(g.getState()); S j=g.getJerk(); see(&j,sizeof j); }
  }
};
template<class S> struct Zeb : Base<S>
{
  ZebulonWalkgen<S> g; double f; int N; typedef Base<S> B;
  Zeb(int var):f(var?0.75:1),N(var?3:2){ this->n=4; }
  void call(int k)
  {
    switch(k)
    {
      case 0: { g.setNbSamples(N); g.setSamplingPeriod((S)(0.25*f)); g.setGravity(typename B::Vector3((S)0.25,(S)-0.5,(S)(9.5*f))); g.setComBodyHeight((S)(0.75*f)); g.setComBaseHeight((S)(0.25*f)); g.setBodyMass((S)(10*f)); g.setBaseMass((S)(7*f));
        g.setBaseCopConvexPolygon(B::poly({{-0.5*f,-0.25},{0.5,-0.25},{0.375,0.5*f}})); g.setBaseComConvexPolygon(B::poly({{-0.25,-0.25*f},{0.25*f,-0.25},{0.25,0.25},{-0.25,0.125*f}}));
        g.setVelRefInWorldFrame(B::ref(2*N,0.1*f)); g.setPosRefInWorldFrame(B::ref(2*N,0.2)); g.setCopRefInLocalFrame(B::ref(2*N,0.05)); g.setComRefInLocalFrame(B::ref(2*N,0.03*f)); g.setBaseVelLimit((S)f); g.setBaseAccLimit((S)(2*f)); g.setBaseJerkLimit((S)(7*f));
        ZebulonWalkgenWeighting<S> w; w.velocityTracking=1; w.positionTracking=(S)f; w.copCentering=2; w.comCentering=3; w.jerkMinimization=(S)0.01; w.tiltMinimization=(S)(4*f); w.tiltVelMinimization=1; g.setWeightings(w); ZebulonWalkgenConfig<S> c; c.withCopConstraints=c.withComConstraints=c.withBaseMotionConstraints=c.withTiltMotionConstraints=true; g.setConfig(c);
        g.setBaseStateX(B::v3(0.1*f,0.2,0)); g.setBaseStateY(B::v3(-0.1,0.05*f,0.1)); g.setBaseStateRoll(B::v3(0.01*f,0,0)); g.setBaseStatePitch(B::v3(-0.02,0.01*f,0)); g.setBaseStateYaw(B::v3(0.3*f,0,0)); g.setComStateX(B::v3(0.12*f,0.1,0)); g.setComStateY(B::v3(-0.08,0,0.1*f)); g.setTiltContactPointOnTheGroundInLocalFrameX((S)(0.2*f)); g.setTiltContactPointOnTheGroundInLocalFrameY((S)-0.1); break; }
      case 1: case 3: { bool r=g.solve((S)(0.125*f)); see(&r,1); break; }
      case 2: { typename B::vectorOfVector3 h; for(int i=0;i<4;++i) h.push_back(typename B::Vector3((S)((i%2)*f-0.5),(S)((i/2)-0.5*f),(S)(0.125*f))); g.setBaseCopHull(h); g.setBaseComHull(h); g.setComAndCopRefInWorldFrame(B::ref(2*N,0.1*f),B::ref(2*N,0.2),B::ref(2*N,0.15),B::ref(2*N,0.3*f)); break; }
    }
    if(k%2){ seeM(g.getBaseStateX()); seeM(g.getBaseStateY()); seeM(g.getComStateX()); seeM(g.getComStateY()); }
  }
};
template<class S> struct Hum : Base<S>
{
  HumanoidWalkgen<S> g; double f; int N; typedef Base<S> B;
  Hum(int var):f(var?0.5:1),N(var?2:3){ this->n=8; }
  void call(int k)
  {
    if(k==0)
    {
      g.setNbSamples(N); g.setSamplingPeriod((S)(0.25*f)); g.setStepPeriod((S)(0.5*f)); g.setInitialDoubleSupportLength((S)(0.25*f));
      g.setLeftFootKinematicConvexPolygon(B::poly({{-0.25*f,-0.5},{0.375,-0.4375},{0.3125,-0.1875*f},{-0.1875,-0.25}})); g.setRightFootKinematicConvexPolygon(B::poly({{-0.3125,0.1875*f},{0.25,0.25},{0.375,0.5},{-0.25,0.4375}}));
      g.setLeftFootCopConvexPolygon(B::poly({{-0.06*f,-0.03},{0.12,-0.03},{0.12,0.03*f},{-0.06,0.03}})); g.setRightFootCopConvexPolygon(B::poly({{-0.06,-0.03},{0.12,-0.03*f},{0.1,0.04}}));
      g.setLeftFootStateX(B::v3(0.1*f,0,0)); g.setLeftFootStateY(B::v3(0.12,0,0)); g.setLeftFootStateZ(B::v3(0,0,0)); g.setRightFootStateX(B::v3(0,0,0)); g.setRightFootStateY(B::v3(-0.15*f,0,0)); g.setRightFootStateZ(B::v3(0,0,0)); g.setLeftFootMaxHeight((S)(0.0625*f)); g.setRightFootMaxHeight((S)0.03125);
      HumanoidWalkgenWeighting<S> w; w.velocityTracking=1; w.copCentering=(S)f; w.jerkMinimization=(S)0.001; g.setWeightings(w); HumanoidWalkgenConfig<S> c; c.withCopConstraints=c.withFeetConstraints=true; g.setConfig(c);
      g.setVelRefInWorldFrame(B::ref(2*N,0.1*f)); g.setComStateX(B::v3(0.05*f,0.02,0.1)); g.setComStateY(B::v3(-0.01,0.03*f,-0.1)); g.setComStateZ(B::v3(0.75*f,0,0)); g.setMove(true); return;
    }
    if(k==6) g.setMove(false);
    step();
  }
  // (an unbalanced pendulum falls: it is put upright again and again)
  void cycle(){ for(int k=0;k<128;++k){ if(k%64==0) g.setMove(k==0); if(k%4==0){ g.setComStateX(B::v3(0.05*f,0.02,0.1)); g.setComStateY(B::v3(-0.01,0.03*f,-0.1)); } step(); } }
  void step()
  {
    bool r=g.solve((S)(0.125*f)); see(&r,1); seeM(g.getComStateX()); seeM(g.getComStateY()); seeM(g.getLeftFootStateX()); seeM(g.getLeftFootStateY()); seeM(g.getLeftFootStateZ()); seeM(g.getRightFootStateX()); seeM(g.getRightFootStateY()); seeM(g.getRightFootStateZ());
  }
};
template<class S> struct Parts : Base<S>
{
  LIPModel<S> l; BaseModel<S> b; NoDynamicModel<S> p; HumanoidFootModel<S> foot; double f; typedef Base<S> B;
  Parts(int var):foot(2,(S)0.25),f(var?0.75:1){ this->n=4; }
  static void dyn(const LinearDynamic<S>& d){ seeM(d.U); seeM(d.UT); seeM(d.Uinv); seeM(d.UTinv); seeM(d.S); seeM(d.K); }
  void call(int k)
  {
    switch(k)
    {
      case 0: l.setNbSamples(3); l.setSamplingPeriod((S)(0.25*f)); l.setFeedbackPeriod((S)(0.125*f)); l.setTotalMass(20); l.setMass((S)(7*f)); l.setComHeight((S)(0.75*f)); l.setGravity(typename B::Vector3((S)0.5,(S)(0.25*f),9)); for(int i=0;i<2;++i){ dyn(l.getCopXLinearDynamic(i)); dyn(l.getCopYLinearDynamic(i)); dyn(l.getComPosLinearDynamic(i)); dyn(l.getComVelLinearDynamic(i)); dyn(l.getComAccLinearDynamic(i)); } break;
      case 1: b.setNbSamples(2); b.setSamplingPeriod((S)(0.5*f)); b.setTotalMass(20); b.setMass((S)(9*f)); b.setComHeight((S)(0.25*f)); b.setGravity(typename B::Vector3((S)(0.5*f),(S)0.25,9)); dyn(b.getCopXLinearDynamic()); dyn(b.getCopYLinearDynamic()); dyn(b.getBasePosLinearDynamic()); dyn(b.getBaseTiltAngleLinearDynamic()); dyn(b.getBaseVelLinearDynamic()); b.setStateX(B::v3(1,f,2)); b.updateStateX((S)f,(S)0.5); seeM(b.getStateX()); break;
      case 2: foot.setStateX(B::v3(0.1*f,0.5,0)); foot.setStateZ(B::v3(0,0,0)); for(int i=0;i<3;++i){ foot.updateStateX(typename B::Vector3((S)f,0,0),(S)(0.75-0.25*i),(S)0.25); foot.updateStateZ(typename B::Vector3((S)(0.125*f),0,0),(S)(0.75-0.25*i),(S)0.25); seeM(foot.getStateX()); seeM(foot.getStateZ()); } break;
      case 3: { for(int m=3;m<6;++m){ std::vector<std::pair<double,double>> q; for(int i=0;i<2*m;++i) q.push_back({((i*5)%7)*f,(i*i)%5-0.5*f}); ConvexPolygon<S> c=B::poly(q); for(auto& v:c.getVertices()) seeM(v); S u[4]={c.getXSupBound(),c.getXInfBound(),c.getYSupBound(),c.getYInfBound()}; see(u,sizeof u); seeM(c.getGeneralConstraintsMatrixCoefsForX()); seeM(c.getGeneralConstraintsMatrixCoefsForY()); seeM(c.getGeneralConstraintsConstantPart()); } p.setNbSamples(3); p.setSamplingPeriod((S)(0.5*f)); p.setState(B::v3(f,1,2)); p.updateState((S)f,(S)0.25); seeM(p.getState()); dyn(p.getPosLinearDynamic()); dyn(p.getVelLinearDynamic()); break; }
    }
  }
};
static const int KINDS=8;
static const char* const names[KINDS]={"trajectory","trajectory, single precision","wheeled robot","wheeled robot, single precision","humanoid","humanoid, single precision","models","models, single precision"};
static Prog* make(int kind,int var){ switch(kind){ case 0: return new Traj<double>(var); case 1: return new Traj<float>(var); case 2: return new Zeb<double>(var); case 3: return new Zeb<float>(var); case 4: return new Hum<double>(var); case 5: return new Hum<float>(var); case 6: return new Parts<double>(var); default: return new Parts<float>(var); } }
