// T01, T02, T03: the trajectory generator along every call history up to a depth.
#include "ref.h"
#include "traj.h"
#include <mpc-walkgen/trajectory_walkgen.h>
using namespace MPCWalkgen;
using qp::V; using qp::M;

namespace traj
{
template<class S> struct Tol;
template<> struct Tol<double>{ static double t(){return 1e-9;} static const char* n(){return "double";} };
template<> struct Tol<float>{ static double t(){return 2e-4;} static const char* n(){return "float";} };

// reference state of the generator
struct Ref
{
  int N=1; double T=1; V st=V::Zero(3), vr=V::Zero(1), pr=V::Zero(1);
  double vl=1,al=1,jl=1, wv=0,wp=0,wj=0; bool cfg=false; V X=V::Zero(1);
};
static V pattern(int N,int k)
{
  V r(N); for(int i=0;i<N;++i) r(i)= k==0? 0.5-0.25*i : k==1? ((i%2)?-0.75:1.0)+0.125*i : k==2? 0.0 : 2.0+i; return r;
}

template<class S> struct Gen
{
  TrajectoryWalkgen<S>* own; TrajectoryWalkgen<S>& g; Ref r; int what;
  explicit Gen(int w):own(qp::make<TrajectoryWalkgen<S>>()),g(*own),what(w){ qp::env.reset(); }
  ~Gen(){ qp::unmake(own); }
  typedef typename Type<S>::VectorX VS;
  VS c(const V& v){ return v.template cast<S>(); }
  void nb(int N,int pat){ mc::note("setNbSamples(%d), references pattern %d",N,pat); g.setNbSamples(N); r.N=N; r.X=V::Zero(N); vel(pat); pos(pat+1); }
  void period(double T){ mc::note("setSamplingPeriod(%g)",T); g.setSamplingPeriod((S)T); r.T=(S)T; }
  void state(double a,double b,double d){ V v(3); v<<a,b,d; mc::note("setState(%g,%g,%g)",a,b,d); g.setState(c(v)); r.st=c(v).template cast<double>(); }
  void vel(int p){ r.vr=pattern(r.N,p); mc::note("setVelRefInWorldFrame(pattern %d)",p); g.setVelRefInWorldFrame(c(r.vr)); }
  void pos(int p){ r.pr=pattern(r.N,p); mc::note("setPosRefInWorldFrame(pattern %d)",p); g.setPosRefInWorldFrame(c(r.pr)); }
  void weights(double v,double p,double j){ mc::note("setWeightings(vel %g, pos %g, jerk %g)",v,p,j); TrajectoryWalkgenWeighting<S> w; w.velocityTracking=(S)v; w.positionTracking=(S)p; w.jerkMinimization=(S)j; g.setWeightings(w); r.wv=(S)v; r.wp=(S)p; r.wj=(S)j; }
  void config(bool b){ mc::note("setConfig(motion constraints %s)",b?"on":"off"); TrajectoryWalkgenConfig<S> k; k.withMotionConstraints=b; g.setConfig(k); r.cfg=b; }
  void limits(int k,double l){ mc::note("set%sLimit(%g)",k==0?"Vel":k==1?"Acc":"Jerk",l); if(k==0){ g.setVelLimit((S)l); r.vl=(S)l; } else if(k==1){ g.setAccLimit((S)l); r.al=(S)l; } else { g.setJerkLimit((S)l); r.jl=(S)l; } }

  void solve(double fb,int ans,bool ok)
  {
    mc::note("solve(%g), solver %s %d, %s",fb,ans<0?"proposes nothing":"answers pattern",ans,ok?"success":"failure");
    qp::between(); qp::env.calls.clear();
    V given=V::Zero(r.N);
    if(ans>0) for(int i=0;i<r.N;++i) given(i)= ans==1? 0.5-0.125*i : ans==2? -1.25+0.5*i*((i%2)?-1:1) : 0.25*(i+1);
    bool exact= ans==4;
    qp::env.answer=[&](const qp::Call& q,V& s){
      if(exact){ qp::Res o=qp::solveQP(q.Q+1e-9*M::Identity(r.N,r.N),q.p,qp::halves(q,V::Zero(r.N))); if(o.feasible) given=o.x; else { given.setZero(); ok=false; } for(int i=0;i<r.N;++i) given(i)=(S)given(i); }
      if(ans<0){ s.resize(0); return ok=false; } s=given; return ok; };
    bool ret=g.solve((S)fb);
    mc::transition(); mc::traceDone(); qp::saw(g.getState()); qp::saw1(g.getJerk()); qp::saw1(ret);
    const qp::Call& q=qp::env.last();
    if((what&WARM)&&q.warm&&q.wasInit&&!q.sameAsInit) mc::fail("warm","a warm start was asked for a problem with other matrices");
    if((what&WARM)&&q.warm&&q.wasInit&&!q.keptInPlace) mc::fail("kept","a warm start was asked although the matrices that the solver was initialised with are no longer where they were");
    double tol=Tol<S>::t();
    if(q.nbVar!=r.N||q.nbCtr!=(r.cfg?2*r.N:0)) mc::fail("size","a solver for %d variables and %d constraints was used, expected %d and %d",q.nbVar,q.nbCtr,r.N,r.cfg?2*r.N:0);
    ref::Lin p=ref::preview(ref::POS,r.N,r.T,r.T),v=ref::preview(ref::VEL,r.N,r.T,r.T),a=ref::preview(ref::ACC,r.N,r.T,r.T);
    V sa=r.st.cwiseAbs();
    if(what&COST)
    {
      qp::Cost k(r.N,r.X);
      for(int i=0;i<r.N;++i)
      {
        k.add(r.wv,v.u.row(i).transpose(),v.s.row(i).dot(r.st)-r.vr(i),v.s.row(i).dot(sa)+std::fabs(r.vr(i)));
        k.add(r.wp,p.u.row(i).transpose(),p.s.row(i).dot(r.st)-r.pr(i),p.s.row(i).dot(sa)+std::fabs(r.pr(i)));
        V e=V::Zero(r.N); e(i)=1; k.add(r.wj,e,0);
      }
      qp::compareCost("cost",k,q,tol);
    }
    if(what&SET)
    {
      std::vector<qp::Half> h;
      if(r.cfg) for(int i=0;i<r.N;++i)
      {
        double ov=v.s.row(i).dot(r.st),oa=a.s.row(i).dot(r.st);
        qp::addBetween(h,v.u.row(i).transpose(),-r.vl-ov,r.vl-ov);
        qp::addBetween(h,a.u.row(i).transpose(),-r.al-oa,r.al-oa);
        V e=V::Zero(r.N); e(i)=1; qp::addBetween(h,e,-r.jl,r.jl);
      }
      qp::compareSets("limits",h,qp::halves(q,r.X),tol*100);
    }
    r.X=(r.X+given).template cast<S>().template cast<double>();
    ref::advance(r.st,r.X(0),(S)fb);
    if(what&STATE)
    {
      mc::checked(5);
      if(ret!=ok) mc::fail("return","solve returned %d but the solver %s",(int)ret,ok?"succeeded":"failed");
      if(!(std::fabs(g.getJerk()-r.X(0))<=tol*(10+std::fabs(r.X(0))))) mc::fail("jerk","published jerk %g, first jerk of the plan %g",(double)g.getJerk(),r.X(0));
      for(int i=0;i<3;++i) if(!(std::fabs(g.getState()(i)-r.st(i))<=tol*(10+r.st.cwiseAbs().maxCoeff()))) mc::fail("state","published state (%g,%g,%g), expected (%g,%g,%g)",(double)g.getState()(0),(double)g.getState()(1),(double)g.getState()(2),r.st(0),r.st(1),r.st(2));
    }
    // follow the published values from here, so that rounding does not accumulate
    if(!(what&STATE)) r.st=g.getState().template cast<double>();
    mc::Hash hh; hh(r.N).d(r.T).vec(r.st).vec(r.X).vec(r.vr).vec(r.pr).d(r.wv).d(r.wp).d(r.wj)(r.cfg).d(r.vl).d(r.al).d(r.jl); mc::state(hh.h);
    mc::Hash ho; ho.vec(q.p).vec(q.bl); mc::outcome(ho.h);
  }
  static const int NOPS=25;
  bool op(int o)
  {
    qp::between();
    switch(o)
    {
      case 0: nb(1,0); break; case 1: nb(2,1); break; case 2: nb(3,0); break;
      case 3: period(0.5); break; case 4: period(0.2); break;
      case 5: state(0.5,-1,0.25); break; case 6: state(0,0,0); break;
      case 7: vel(1); break; case 8: vel(3); break; case 9: pos(0); break; case 10: pos(3); break;
      case 11: limits(0,0.25); break; case 12: limits(1,2); break; case 13: limits(2,0); break; case 14: limits(2,8); break;
      case 15: weights(1,0,0); break; case 16: weights(0,2,0.01); break; case 17: weights(3,1,0.5); break; case 18: weights(0,0,2); break;
      case 19: config(true); break; case 20: config(false); break;
      case 21: solve(0.25,1,true); break; case 22: solve(r.T,2,false); break; case 23: solve(0.05,4,true); break; case 24: solve(r.T/2,-1,false); break;
    }
    return true;
  }
  // calls that change one number only, the rest stays as it is
  static const int FINE=55;
  void fine(int o)
  {
    qp::between(); static const double w[]={0,0.5,2},l[]={0,0.375,2},s[]={-0.5,0,0.75};
    if(o<9){ double x[3]={r.wv,r.wp,r.wj}; x[o/3]=w[o%3]; weights(x[0],x[1],x[2]); return; } o-=9;
    if(o<9){ limits(o/3,l[o%3]); return; } o-=9;
    if(o<9){ V v=r.st; v(o/3)=s[o%3]; state(v(0),v(1),v(2)); return; } o-=9;
    if(o<12)
    { // one sample of one reference
      bool p=o>=6; int i=o%6/2; V v= p? r.pr: r.vr; i= i==0? 0: i==1? r.N/2: r.N-1; v(i)= o%2? 0: (double)(S)0.625; mc::note("set%sRefInWorldFrame: sample %d becomes %g",p?"Pos":"Vel",i,v(i));
      if(p){ r.pr=v; g.setPosRefInWorldFrame(c(v)); } else { r.vr=v; g.setVelRefInWorldFrame(c(v)); } return;
    } o-=12;
    if(o<1){ config(!r.cfg); return; } o-=1;
    static const double T[]={0.25,0.5,1,0.2}; if(o<4){ period(T[o]); return; } o-=4;
    if(o<4){ nb(o+1,o); return; } o-=4;
    switch(o){ case 0: solve(r.T,1,true); break; case 1: solve(r.T/2,2,false); break; case 2: solve(0.05,4,true); break; case 3: solve(1.5*r.T,0,true); break; case 4: { mc::note("the same limits again"); g.setVelLimit((S)r.vl); g.setAccLimit((S)r.al); g.setJerkLimit((S)r.jl); break; } case 5: { mc::note("the same reference again"); g.setVelRefInWorldFrame(c(r.vr)); g.setPosRefInWorldFrame(c(r.pr)); g.setState(c(r.st)); break; } case 6: solve(0.75*r.T,-1,false); break; }
  }
  void begin(int start)
  {
    if(start==1){ nb(3,1); period(0.5); weights(1,0.5,0.125); config(true); limits(0,0.75); limits(1,1.5); limits(2,3); state(0.25,0.5,-0.5); solve(0.25,1,true); }
    if(start==2){ config(true); weights(1,1,1); nb(2,0); solve(0.5,2,true); }
  }
};
template<class S> static void fineHistory(int what,int start,uint64_t code,int depth){ Gen<S> g(what); g.begin(start); mc::Radix x(code); for(int i=0;i<depth;++i) g.fine(x(Gen<S>::FINE)); g.solve(0.125,1,true); g.solve(g.r.T,3,true); }
// every sequence of calls that change one number
static void fines(int what,int depth)
{
  const int n=Gen<double>::FINE; uint64_t P=mc::ipow(n,depth-1);
  for(int start=0;start<3;++start)
    mc::cases(start==0?"one number at a time, new generator":start==1?"one number at a time, running generator":"one number at a time, configured generator",P,[&](uint64_t i){
      for(int k=0;k<n;++k){ mc::note("#%d",k); fineHistory<double>(what,start,i+k*P,depth); mc::clearNotes(); if((i+k)%11==0){ fineHistory<float>(what,start,i+k*P,depth); mc::clearNotes(); } }
      if(i==17){ fineHistory<double>(what,start,i+7*P,depth); mc::sample(); } });
}
template<class S> static void history(int what,int start,uint64_t code,int depth,bool tail)
{
  Gen<S> g(what); g.begin(start);
  mc::Radix x(code); for(int i=0;i<depth;++i) g.op(x(Gen<S>::NOPS));
  g.solve(0.125,1,true); if(tail) g.solve(0.125,3,false);
}
// one number at a time by less than the library's tolerance
template<class S> static void nudges(int what,uint64_t i)
{
  Gen<S> g(what); mc::Radix x(i); static const double d[]={3.0517578125e-05,-3.0517578125e-05,9.5367431640625e-07}; int st=1+x(2); bool between=x(2); int o[2]={(int)x(16),(int)x(16)}; int dk[2]={(int)x(3),0}; dk[1]=(dk[0]+o[0])%2; g.begin(st); Ref& r=g.r;
  for(int k=0;k<2;++k)
  {
    int e=o[k]; double z=d[dk[k]]; mc::note("one number changes by %g",z);
    if(e<3){ double w[3]={r.wv,r.wp,r.wj}; w[e]+=std::fabs(z); g.weights(w[0],w[1],w[2]); }
    else if(e<6){ double l[3]={r.vl,r.al,r.jl}; g.limits(e-3,l[e-3]+z); }
    else if(e<9){ V v=r.st; v(e-6)+=z; g.state(v(0),v(1),v(2)); }
    else if(e<15){ V& v= e<12? r.vr: r.pr; int j=(e-9)%3; j= j==0? 0: j==1? r.N/2: r.N-1; v(j)+=z; v=g.c(v).template cast<double>(); if(e<12) g.g.setVelRefInWorldFrame(g.c(v)); else g.g.setPosRefInWorldFrame(g.c(v)); }
    else g.period(r.T+z);
    if(k||between) g.solve(0.125,1+k,true);
  }
}
// one configuration, long horizon
template<class S> static void grid(int what,uint64_t i)
{
  mc::Radix x(i); static const int Ns[]={1,2,4,7,12,20}; static const double Ts[]={0.05,0.2,1}; static const double w[][3]={{1,1,1},{0,1,1e-3},{1,0,1e-3},{0,0,1},{5,0.01,1e-4},{1,10,0}};
  Gen<S> g(what); int N=Ns[x(6)]; int ord=x(3); double T=Ts[x(3)]; int wi=x(6); bool cfg=x(2); int ps=x(3); int sc=x(3);
  auto A=[&]{ g.nb(N,ps); g.pos((ps*2+1)%4); }; auto B=[&]{ g.period(T); g.weights(w[wi][0],w[wi][1],w[wi][2]); }; auto C=[&]{ g.config(cfg); g.limits(0,sc==0?0.5:3); g.limits(1,sc==1?0.25:4); g.limits(2,sc==2?0.5:100); g.state(0.5*sc,-0.25,0.125*(ps-1)); };
  if(ord==0){A();B();C();} else if(ord==1){C();B();A();} else {B();C();A();}
  g.solve(T/2,4,true); g.solve(T,1,true); g.solve(2.5*T,3,true); g.solve(T/4,2,false);
}
// magnitudes: weights, states, references, limits and periods far apart
template<class S> static void magnitudes(int what,uint64_t i)
{
  mc::Radix x(i); static const double w[]={0,1e-6,1e-3,1,1e3},m[]={1e-3,1,1e3},Ts[]={0.004,0.2,8}; static const int Ns[]={1,3,16};
  Gen<S> g(what); double a=w[x(5)],b=w[x(5)],d=w[x(5)]; double ms=m[x(3)],mr=m[x(3)],ml=m[x(3)],T=Ts[x(3)]; int N=Ns[x(3)];
  g.nb(N,0); g.period(T); g.weights(a,b,d); g.r.vr=pattern(N,1)*mr; g.r.vr=g.c(g.r.vr).template cast<double>(); g.g.setVelRefInWorldFrame(g.c(g.r.vr)); g.r.pr=pattern(N,3)*-mr; g.r.pr=g.c(g.r.pr).template cast<double>(); g.g.setPosRefInWorldFrame(g.c(g.r.pr));
  g.config(true); g.limits(0,ml); g.limits(1,3*ml); g.limits(2,0.5*ml); g.state(0.5*ms,-ms,0.25*ms); g.solve(T,1,true); g.solve(T/2,3,i%8!=5);
}
// long runs: a repeated pattern of calls
template<class S> static void marathon(int what,uint64_t i,int L)
{
  Gen<S> g(what); mc::Radix x(i); int a=x(Gen<S>::FINE),every=1+x(3)*5; g.begin(1); if(x(2)) g.limits(0,1e3);
  for(int k=0;k<L;++k){ if(k%every==every-1) g.fine((a+k)%Gen<S>::FINE); g.solve(0.0625*(1+k%3),k%14==5?-1:k%4,k%7!=5); if(k%16==15) g.state(0.125*(k%5),0.25,-0.125); }
}
void all(int what)
{
  mc::cases("magnitudes",125*27*9,[&](uint64_t i){ magnitudes<double>(what,i); });
  mc::cases("nudges",4*256*3,[&](uint64_t i){ nudges<double>(what,i); if(i%7==0){ mc::clearNotes(); nudges<float>(what,i); } });
  mc::cases("marathons",55*3*2,[&](uint64_t i){ marathon<double>(what,i,mc::ctx.thorough?2000:300); if(i%9==0){ mc::clearNotes(); marathon<float>(what,i,300); } });
  if(what&FEW){
  mc::cases("configurations",6*3*3*6*2*3*3,[&](uint64_t i){ grid<double>(what,i); if(i%7==0) grid<float>(what,i); });
    fines(what,mc::ctx.thorough?3:2);
    return;
  }
  fines(what,mc::ctx.thorough?4:3);
  int d= mc::ctx.thorough?5:4; const int n=Gen<double>::NOPS;
  // every sequence of d calls, from three starting points; the case is the first d-2 calls
  uint64_t per=mc::ipow(n,2);
  for(int start=0;start<3;++start)
    mc::cases(start==0?"histories from a new generator":start==1?"histories from a running generator":"histories from a configured generator",mc::ipow(n,d-2),[&](uint64_t i){
      for(uint64_t k=0;k<per;++k){ mc::note("#%llu",(unsigned long long)k); history<double>(what,start,i+k*mc::ipow(n,d-2),d,k%5==0); mc::clearNotes(); }
      if(i==17) { mc::note("prefix %llu then every pair of calls, e.g.:",(unsigned long long)i); history<double>(what,start,i+7*mc::ipow(n,d-2),d,true); mc::sample(); } });
  mc::cases("single precision",n*n*n,[&](uint64_t i){ history<float>(what,1,i,3,true); });
  mc::cases("long runs",mc::ipow(4,8),[&](uint64_t i){ Gen<double> g(what); g.nb(4,1); g.period(0.5); g.weights(1,0.5,0.125); g.config(true); mc::Radix x(i); for(int k=0;k<8;++k){ int o=x(4); g.op(o<3? 21+o: 6); } g.solve(0.125,1,true); });
  mc::cases("configurations",6*3*3*6*2*3*3,[&](uint64_t i){ grid<double>(what,i); if(i%7==0) grid<float>(what,i); });
}
// ---- E02: the loop closed with an exact solver ----
struct Loop
{
  Gen<double> g; double jerk=0; bool over=false, feasible=true; explicit Loop():g(0){}
  // the independent problem of the present state
  std::vector<qp::Half> limits(double slack) const
  {
    const Ref& r=g.r; std::vector<qp::Half> h; if(!r.cfg) return h;
    ref::Lin v=ref::preview(ref::VEL,r.N,r.T,r.T),a=ref::preview(ref::ACC,r.N,r.T,r.T);
    for(int i=0;i<r.N;++i)
    {
      double ov=v.s.row(i).dot(r.st),oa=a.s.row(i).dot(r.st); V e=V::Zero(r.N); e(i)=1;
      qp::addBetween(h,v.u.row(i).transpose(),-r.vl-ov-slack,r.vl-ov+slack); qp::addBetween(h,a.u.row(i).transpose(),-r.al-oa-slack,r.al-oa+slack); qp::addBetween(h,e,-r.jl-slack,r.jl+slack);
    }
    return h;
  }
  qp::Res optimum() const
  {
    const Ref& r=g.r; qp::Cost k(r.N,V::Zero(r.N)); ref::Lin p=ref::preview(ref::POS,r.N,r.T,r.T),v=ref::preview(ref::VEL,r.N,r.T,r.T);
    for(int i=0;i<r.N;++i){ k.add(r.wv,v.u.row(i).transpose(),v.s.row(i).dot(r.st)-r.vr(i)); k.add(r.wp,p.u.row(i).transpose(),p.s.row(i).dot(r.st)-r.pr(i)); V e=V::Zero(r.N); e(i)=1; k.add(r.wj,e,0); }
    return qp::solveQP(k.Q,k.p,limits(0));
  }
  void cycle(double fb)
  {
    if(over) return; Ref& r=g.r; mc::note("solve(%g) with an exact solver",fb);
    bool ok=true; qp::env.calls.clear(); qp::env.answer=[&](const qp::Call& given,V& s){ qp::Call q=qp::asKept(given); qp::Res o=qp::solveQP(q.Q,q.p,qp::halves(q,V::Zero(q.p.size()))); if(!o.feasible) s.resize(0); else s=o.x; return ok=o.feasible; };
    bool ret=g.g.solve(fb); qp::env.answer=nullptr; mc::transition();
    qp::Res e=optimum(); mc::checked(4);
    if(ok!=e.feasible)
    { // on the border of what is possible? then rounding may decide either way
      auto possible=[&](const std::vector<qp::Half>& hs){ return qp::solveQP(M::Identity(r.N,r.N),V::Zero(r.N),hs).feasible; };
      bool mine=possible(qp::halves(qp::asKept(qp::env.last()),V::Zero(r.N)));
      if(mine&&!possible(limits(1e-6))) mc::fail("feasible","a plan is accepted although no plan respects the limits");
      if(!mine&&possible(limits(-1e-6))) mc::fail("infeasible","no plan is accepted although there is one within the limits");
      over=true; return;
    }
    if(ret!=ok) mc::fail("return","solve returned %d",(int)ret);
    if(ok) jerk=e.x(0);
    feasible=ok; double sc= ok? 1+e.x.cwiseAbs().maxCoeff(): 1+std::fabs(jerk);
    if(!(std::fabs(g.g.getJerk()-jerk)<=1e-5*sc)) mc::fail("optimal","the jerk is %.9g, that of the best plan %.9g",(double)g.g.getJerk(),jerk);
    ref::advance(r.st,jerk,fb); V s=g.g.getState();
    for(int i=0;i<3;++i) if(!(std::fabs(s(i)-r.st(i))<=1e-5*sc)) mc::fail("state","the state is (%g,%g,%g), the best plan leads to (%g,%g,%g)",s(0),s(1),s(2),r.st(0),r.st(1),r.st(2));
    r.st=s; jerk=g.g.getJerk();
    if(ok&&r.cfg&&fb==r.T&&(std::fabs(s(1))>r.vl+1e-5*sc||std::fabs(s(2))>r.al+1e-5*sc||std::fabs(jerk)>r.jl+1e-5*sc)) mc::fail("limit","velocity %g, acceleration %g, jerk %g exceed the limits %g, %g, %g",s(1),s(2),jerk,r.vl,r.al,r.jl);
    if(!(s.cwiseAbs().maxCoeff()<1e3)) over=true;
    mc::Hash h; h.vec(r.st).d(jerk)(r.N)(r.cfg).d(r.vl).d(r.wv).d(r.T); mc::state(h.h); mc::Hash o; o.d(jerk); mc::outcome(o.h);
  }
  static const int NEV=14;
  void event(int e)
  {
    Ref& r=g.r;
    switch(e)
    {
      case 0: break; case 1: g.pos(2); break; case 2: g.pos(3); break; case 3: g.vel(1); break; case 4: g.vel(2); break;
      case 5: g.limits(0,r.vl>1?0.75:2); break; case 6: g.limits(1,r.al>1?0.75:3); break; case 7: g.limits(2,r.jl>4?2:20); break;
      case 8: g.weights(1,r.wp>1?0.5:4,0.01); break; case 9: g.weights(r.wv>1?0:2,1,0.25); break;
      case 10: g.config(!r.cfg); break; case 11: g.nb(r.N==5?8:5,0); jerk=0; break; case 12: g.period(r.T<0.2?0.25:0.125); break;
      case 13: g.state(r.st(0)+0.125,r.st(1)-0.25,0.125); break;
    }
  }
  void begin(int c)
  {
    static const double T[]={0.25,0.1,1.25}; g.period(T[c]); g.nb(c==1?8:5,2); g.weights(1,2,0.01); g.config(c!=1); g.limits(0,1.5); g.limits(1,2); g.limits(2,20); g.state(0,0,0); g.pos(3); g.vel(2);
  }
  // constant references: the state settles on them
  void settle()
  {
    if(over) return; Ref& r=g.r; g.nb(10,2); jerk=0; g.period(0.25); g.weights(0.5,2,1e-3); g.limits(0,1); g.limits(1,4); g.limits(2,60); r.pr=V::Constant(10,0.75); mc::note("position reference 0.75, velocity reference 0"); g.g.setPosRefInWorldFrame(r.pr); g.vel(2);
    auto far=[&]{ return std::fabs(r.st(0)-0.75)+2*std::fabs(r.st(1))+2*std::fabs(r.st(2)); };
    if(far()>50) return;
    int total=0,left=60+(int)(8*far()); for(;left>0;--left){ cycle(0.125); if(over||++total>1500) return; if(!feasible) left=61+(int)(8*std::min(1e3,far())); }
    mc::checked();
    if(!(std::fabs(r.st(0)-0.75)<=2e-3&&std::fabs(r.st(1))<=2e-3&&std::fabs(r.st(2))<=1e-2)) mc::fail("settle","after %d cycles with constant references (0.75, 0) the state is (%g,%g,%g)",total,r.st(0),r.st(1),r.st(2));
  }
};
void loop()
{
  bool th=mc::ctx.thorough; int D= th?5:4; const int E=Loop::NEV;
  mc::cases("trajectory, every sequence of events",3*mc::ipow(E,D-1),[&](uint64_t i){ for(int k=0;k<E;++k){ mc::Radix x(i); int c=x(3); Loop l; l.begin(c); l.cycle(l.g.r.T); for(int d=0;d<D;++d){ l.event(d<D-1?x(E):k); for(int j=0;j<1+(d+c)%3;++j) l.cycle(j==1?l.g.r.T/2:j==2?1.5*l.g.r.T:l.g.r.T); } mc::traceDone(); if((i+k)%23==0) l.settle(); if(i==5&&k==5) mc::sample(); mc::clearNotes(); } });
  mc::cases("trajectory, two events at any distance",3*E*E,[&](uint64_t i){ for(int k=0;k<(th?30:12);++k){ mc::Radix x(i); int c=x(3); Loop l; l.begin(c); for(int j=0;j<3;++j) l.cycle(l.g.r.T); l.event(x(E)); for(int j=0;j<k;++j) l.cycle(c==1?l.g.r.T/4:l.g.r.T); l.event(x(E)); for(int j=0;j<12;++j) l.cycle(l.g.r.T/(1+j%3)); mc::traceDone(); if((i+k)%3==0) l.settle(); mc::clearNotes(); } });
}
// another instance in each precision, busy with other parameters
struct Other { Gen<double>* g=nullptr; Gen<float>* f=nullptr; int k=0; template<class G> void act(G*& g){ if(!g||k%40==0){ delete g; g=new G(0); g->nb(2,3); g->config(true); g->weights(2,3,4); } g->op((k*7)%G::NOPS); g->solve(0.375,1,true); } void operator()(){ act(g); act(f); ++k; } ~Other(){ delete g; delete f; } };
void memory(Same same)
{
  int d= mc::ctx.thorough?4:3; const int n=Gen<double>::NOPS;
  mc::cases("trajectory generator",3*mc::ipow(n,d-1),[&](uint64_t i){ for(int k=0;k<n;++k){ auto o=std::make_shared<Other>(); same([&]{ history<double>(0,(int)(i%3),i/3+(uint64_t)k*mc::ipow(n,d-1),d,true); },[=]{ (*o)(); }); if((i+k)%8==0) same([&]{ history<float>(0,(int)(i%3),i/3+(uint64_t)k*mc::ipow(n,d-1),d,true); },[=]{ (*o)(); }); } });
  const int F=Gen<double>::FINE;
  mc::cases("trajectory generator, one number at a time",3*F,[&](uint64_t i){ for(int k=0;k<F;++k) for(int l=0;l<(mc::ctx.thorough?F:1);++l){ auto o=std::make_shared<Other>(); uint64_t c=i/3+(uint64_t)F*k+(uint64_t)F*F*(mc::ctx.thorough?l:54); same([&]{ fineHistory<double>(0,(int)(i%3),c,3); },[=]{ (*o)(); }); } });
}
}
#ifndef NO_TRAJ_CHECKS
MC_CHECK(T01){ traj::all(traj::COST); }
MC_CHECK(T02){ traj::all(traj::SET); }
MC_CHECK(T03){ traj::all(traj::STATE); }
#endif
