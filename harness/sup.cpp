// H01, H02, H03: the feet supervisor along every history of start, stop and timing
// commands, in lock step with a reference schedule in integer time.
#include "qp.h"
#include "gait.h"
#include <mpc-walkgen/humanoid_feet_supervisor.h>
using namespace MPCWalkgen;
using gait::Gait;
namespace
{
enum What { SCHED=1, PLAN=2, FEET=4 };
template<class S> struct Tol; template<> struct Tol<double>{ static double t(){return 1e-9;} }; template<> struct Tol<float>{ static double t(){return 2e-4;} };
struct Cfg { int N,R,step,ds; double T; int order; };      // step, ds in sampling periods
// reachable polygons: index by support foot
static const double REACH[2][4][2]={{{-0.25,-0.5},{0.375,-0.4375},{0.3125,-0.1875},{-0.1875,-0.25}},{{-0.3125,0.1875},{0.25,0.25},{0.375,0.5},{-0.25,0.4375}}};
static const double SOLE[2][5][2]={{{-0.0625,-0.03125},{0.125,-0.03125},{0.125,0.046875},{-0.0625,0.046875},{0,0}},{{-0.0625,-0.046875},{0.125,-0.046875},{0.15625,0},{0.125,0.03125},{-0.0625,0.03125}}};

template<class S> struct Run
{
  typedef typename Type<S>::VectorX VS;
  HumanoidFeetSupervisor<S> f; Gait g; VS X; int what; double T; int cyc=0, patt=1; double H[2];
  qp::V foot[2][3]; // published states, left/right x y z
  std::vector<double> sx,sy;
  static HumanoidFeetSupervisor<S> make(const Cfg& c){ return c.order==0? HumanoidFeetSupervisor<S>(c.N,(S)c.T): HumanoidFeetSupervisor<S>(); }
  static ConvexPolygon<S> poly(const double (*p)[2],int n){ typename Type<S>::vectorOfVector2 v; for(int i=0;i<n;++i) v.push_back(typename Type<S>::Vector2((S)p[i][0],(S)p[i][1])); return ConvexPolygon<S>(v); }
  static const ConvexPolygon<S>& sole(int k){ static const ConvexPolygon<S> p[2]={poly(SOLE[0],4),poly(SOLE[1],5)}; return p[k]; }
  static const ConvexPolygon<S>& reach(int k){ static const ConvexPolygon<S> p[2]={poly(REACH[0],4),poly(REACH[1],4)}; return p[k]; }
  static VS v3(double a){ VS v(3); v<<(S)a,0,0; return v; }
  Run(const Cfg& c,int w):f(make(c)),what(w),T(c.T)
  {
    mc::note("supervisor: %d samples of %g s, %d control cycles per sample, steps of %d samples, double support of %d samples (setup order %d)",c.N,c.T,c.R,c.step,c.ds,c.order);
    if(c.order){ f.setNbSamples(c.N); }
    if(c.order==2) f.setInitialDoubleSupportLength((S)(c.ds*c.T));
    if(c.order){ f.setSamplingPeriod((S)c.T); }
    f.setStepPeriod((S)(c.step*c.T)); if(c.order!=2) f.setInitialDoubleSupportLength((S)(c.ds*c.T));
    f.setLeftFootKinematicConvexPolygon(poly(REACH[0],4)); f.setRightFootKinematicConvexPolygon(poly(REACH[1],4));
    f.setLeftFootCopConvexPolygon(poly(SOLE[0],4)); f.setRightFootCopConvexPolygon(poly(SOLE[1],5));
    f.setLeftFootStateX(v3(0.125)); f.setLeftFootStateY(v3(0.25)); f.setRightFootStateX(v3(0.0625)); f.setRightFootStateY(v3(-0.1875)); f.setLeftFootStateZ(v3(0)); f.setRightFootStateZ(v3(0));
    H[0]=(S)0.0625; H[1]=(S)0.03125; f.setLeftFootMaxHeight((S)H[0]); f.setRightFootMaxHeight((S)H[1]);
    g.N=c.N; g.R=c.R; g.step=c.step*c.R; g.ds=c.ds*c.R; g.ttn=g.dur=g.ds;
    X=VS::Zero(2*c.N); for(int i=0;i<2*c.N;++i) X(i)=(S)(0.25*i-0.5);
    publish(foot);
  }
  void publish(qp::V (*o)[3]) const
  {
    o[0][0]=f.getLeftFootStateX().template cast<double>(); o[0][1]=f.getLeftFootStateY().template cast<double>(); o[0][2]=f.getLeftFootStateZ().template cast<double>();
    o[1][0]=f.getRightFootStateX().template cast<double>(); o[1][1]=f.getRightFootStateY().template cast<double>(); o[1][2]=f.getRightFootStateZ().template cast<double>();
  }
  void setMove(bool m){ mc::note("setMove(%s)",m?"true":"false"); f.setMove(m); g.move=m; }
  void setStep(int k){ if(!g.canSetStep(k*g.R)||((what&FEET)&&g.flying())) return; mc::note("setStepPeriod(%d samples)",k); f.setStepPeriod((S)(k*T)); g.setStep(k*g.R); }
  void setDs(int k){ if(!g.canSetDs(k*g.R)) return; mc::note("setInitialDoubleSupportLength(%d samples)",k); f.setInitialDoubleSupportLength((S)(k*T)); g.setDs(k*g.R); }
  static double mid(int sup,int a){ double lo=1e9,hi=-1e9; for(auto& p:REACH[sup]){ lo=std::min(lo,p[a]); hi=std::max(hi,p[a]); } return (lo+hi)/2; }

  void cycle(int fb)
  {
    double fbs=fb*T/g.R, tol=Tol<S>::t();
    VS before=X; int oldM=(int)X.rows()/2-g.N;
    mc::note("cycle of %g s (%s, %g s left, %d planned steps)",fbs,gait::name(g.type),g.ttn*T/g.R,oldM);
    g.update(); mc::transition(); mc::traceDone();
    f.updateTimeline(X,(S)fbs);
    int N=g.N,M=g.M;
    // reference plan
    sx.clear(); sy.clear(); for(int i=0;i<oldM;++i){ sx.push_back(before(2*N+i)); sy.push_back(before(2*N+oldM+i)); }
    if(g.dropped){ if(sx.empty()) mc::fail("harness","nothing to drop"); sx.erase(sx.begin()); sy.erase(sy.begin()); }
    if((int)sx.size()>M){ sx.resize(M); sy.resize(M); }
    int carried=(int)sx.size();
    while((int)sx.size()<M)
    {
      int k=(int)sx.size(), sup=g.support[k]==gait::LEFT?0:1, cur= g.type==gait::RIGHT?1:0;
      double px= k? sx[k-1]: foot[cur][0](0), py= k? sy[k-1]: foot[cur][1](0);
      sx.push_back(px+mid(sup,0)); sy.push_back(py+mid(sup,1));
    }
    if(what&SCHED)
    {
      mc::checked(6+3*N);
      if(f.getNbPreviewedSteps()!=M) mc::fail("steps","%d previewed steps, %d single supports end within the horizon",f.getNbPreviewedSteps(),M);
      if(f.isInDS()!=(g.type==gait::DS)) mc::fail("phase","in double support: %d, the schedule says %s",(int)f.isInDS(),gait::name(g.type));
      const SelectionMatrices<S>& s=f.getSelectionMatrices(); const LinearDynamic<S>& d=f.getFeetPosLinearDynamic();
      if(s.V.rows()!=N||s.V.cols()!=M||s.V0.rows()!=N||s.VT.rows()!=M||s.VT.cols()!=N||d.U.rows()!=N||d.U.cols()!=M||d.S.rows()!=N||d.UT.rows()!=M||d.UT.cols()!=N) mc::fail("selection-size","selection matrices of the wrong size");
      bool dsSeen=false;
      for(int i=0;i<N;++i)
      {
        for(int j=-1;j<M;++j)
        {
          int want=g.col[i]==j, got= j<0? s.V0(i,0): s.V(i,j);
          if(got!=want||(j>=0&&s.VT(j,i)!=want)) mc::fail("selection","sample %d is %sassigned to %s %d, the foot active then is %d (-1: the current one)",i,got?"":"not ",j<0?"the current foot":"previewed step",j,g.col[i]);
          if((j<0?d.S(i,0):d.U(i,j))!=(S)want||(j>=0&&d.UT(j,i)!=(S)want)) mc::fail("selection-dynamic","the dynamic of the feet positions differs from the assignment");
        }
        bool same=true; int nv=0;
        if(g.kind[i]!=gait::DS)
        {
          const ConvexPolygon<S>& q=f.getCopConvexPolygon(i); nv=q.getNbVertices();
          const ConvexPolygon<S>& e=sole(g.kind[i]-1); same=nv==e.getNbVertices(); for(int k=0;same&&k<nv;++k) same=q.getVertices()[k]==e.getVertices()[k];
        }
        else if(!dsSeen&&cyc%8==0){ dsSeen=true; nv=f.getCopConvexPolygon(i).getNbVertices(); same=nv>0; }
        if(!same) mc::fail("sample-phase","sample %d has a polygon of %d vertices, it falls in %s",i,nv,gait::name(g.kind[i]));
      }
      if(g.S%fb==0 && f.getNbOfCallsBeforeNextSample()!=g.S/fb) mc::fail("calls","%d calls before the next sample, expected %d",f.getNbOfCallsBeforeNextSample(),g.S/fb);
      for(int i=0;i<M;++i)
      {
        const ConvexPolygon<S>& k=f.getKinematicConvexPolygon(i); const ConvexPolygon<S>& e=reach(g.support[i]-1);
        bool same=k.getNbVertices()==4; for(int j=0;same&&j<4;++j) same=k.getVertices()[j]==e.getVertices()[j];
        if(!same) mc::fail("reach","step %d is not bound to the reachable polygon of its support foot (%s)",i,gait::name(g.support[i]));
      }
      // support reference of the samples of the present foot
      double rx,ry; bool mean=g.type==gait::DS&&!g.move; int c=g.type==gait::RIGHT?1:0;
      rx= mean? 0.5*(foot[0][0](0)+foot[1][0](0)): foot[c][0](0); ry= mean? 0.5*(foot[0][1](0)+foot[1][1](0)): foot[c][1](0);
      const VS& ax=f.getSupportFootStateX(); const VS& ay=f.getSupportFootStateY(); double gx=ax(0),gy=ay(0);
      if(!(std::fabs(gx-rx)<=tol*10&&std::fabs(gy-ry)<=tol*10)) mc::fail("support-state","support at (%g,%g), expected (%g,%g)",gx,gy,rx,ry);
    }
    if(what&PLAN)
    {
      mc::checked(2+2*N+2*M);
      if((int)X.rows()!=2*N+2*M) mc::fail("plan-size","the plan has %d entries for %d samples and %d previewed steps",(int)X.rows(),N,M);
      for(int i=0;i<2*N;++i) if(X(i)!=before(i)) mc::fail("plan-cop","entry %d of the centre of pressure part changed from %g to %g",i,(double)before(i),(double)X(i));
      for(int i=0;i<M;++i)
      {
        double t= i<carried? 0: tol*10; const char* k= i<carried?"plan-carried":"plan-new";
        if(!(std::fabs(X(2*N+i)-sx[i])<=t&&std::fabs(X(2*N+M+i)-sy[i])<=t)) mc::fail(k,"step %d of %d is at (%g,%g), expected (%g,%g)%s",i,M,(double)X(2*N+i),(double)X(2*N+M+i),sx[i],sy[i],i<carried?" as planned before":"");
      }
    }
    else if((int)X.rows()!=2*N+2*M) return;
    // the solver moves the plan
    for(int i=0;i<X.rows();++i) X(i)+=(S)(patt==0?0.0: patt==1? 0.015625*((cyc*7+i*3)%5-2): -0.03125*((cyc+i)%3));
    VS st=X.segment(2*N,2*M);
    bool fly=g.flying(); int sw= g.type==gait::LEFT?1:0;
    if(fly&&M==0){ g.pass(fb); return; }
    f.updateFeetStates(st,(S)fbs);
    qp::V now[2][3]; publish(now);
    int left=g.ttn-fb;
    if(what&FEET)
    {
      static const char* side[]={"left","right"}; static const char* ax[]={"x","y","z"};
      for(int k=0;k<2;++k) if(!(fly&&k==sw))
      {
        mc::checked(3);
        for(int a=0;a<3;++a) if(now[k][a]!=foot[k][a]) mc::fail("support-moved","the %s foot moved along %s while it supports the robot: (%g,%g,%g) -> (%g,%g,%g)",side[k],ax[a],foot[k][a](0),foot[k][a](1),foot[k][a](2),now[k][a](0),now[k][a](1),now[k][a](2));
      }
      if(fly)
      {
        mc::checked(4); double z=now[sw][2](0),h=H[sw],fl=g.dur-g.R; double lt=tol*100+1e-9, vs=1/(fbs);
        if(left==0)
        {
          double e[3]={(double)st(0),(double)st(M),0};
          for(int a=0;a<3;++a) if(!(std::fabs(now[sw][a](0)-e[a])<=lt&&std::fabs(now[sw][a](1))<=lt*vs&&std::fabs(now[sw][a](2))<=lt*vs*vs*10)) mc::fail("landing","the %s foot ends its step with %s state (%g,%g,%g), the planned landing is %g at rest",side[sw],ax[a],now[sw][a](0),now[sw][a](1),now[sw][a](2),e[a]);
        }
        if(!(z>=-lt)) mc::fail("below-ground","the %s foot is at height %g",side[sw],z);
        if(!(z<=h+lt+1e-3*h)) mc::fail("too-high","the %s foot is at height %g, its maximum is %g",side[sw],z,h);
        if(2*left==fl&&!(std::fabs(z-h)<=lt)) mc::fail("mid-flight","the %s foot is at height %g at mid-flight, configured %g",side[sw],z,h);
        mc::Hash o; o.d(now[sw][0](0)).d(now[sw][1](0)).d(z); mc::outcome(o.h);
      }
    }
    for(int k=0;k<2;++k) for(int a=0;a<3;++a) foot[k][a]=now[k][a];
    g.pass(fb); ++cyc;
    mc::Hash h; h(g.type)(g.ttn)(g.dur)(g.move)(g.movedThen)(g.step)(g.ds)(g.M)(g.N)(g.R).vec(X.segment(2*N,2*M)); mc::state(h.h);
  }
  // feedback of one cycle: the configured one
  void command(int c)
  {
    switch(c)
    {
      case 0: setMove(!g.move); break;
      case 1: setStep(g.step/g.R==2?3: g.step/g.R==3?5: 2); break;
      case 2: setDs(g.ds/g.R==1?2: g.ds/g.R==2?3: 1); break;
      case 3: setStep(g.step/g.R+1); break;
      case 4: patt=(patt+1)%3; mc::note("solver pattern %d",patt); break;
    }
  }
};
static bool fits(int N,int step){ return step<=N+1; }
// all placements of k commands in L cycles, the walk being started at cycle 0 or 1
template<class S> void placed(int what,const Cfg& c,int L,int k,uint64_t pos,uint64_t cmd,int pat,bool mixed)
{
  Run<S> r(c,what); r.patt=pat; mc::Radix p(pos),q(cmd); std::vector<std::pair<int,int>> at; for(int i=0;i<k;++i){ int a=p(L); int b=q(5); at.push_back({a,b}); }
  r.setMove(true);
  for(int i=0;i<L;++i)
  {
    for(auto& e:at) if(e.first==i) r.command(e.second);
    if(!fits(r.g.N,r.g.step/r.g.R)) return;
    int fb=1; if(mixed&&r.g.R>1){ int s=r.g.ttn%r.g.R; if(r.g.ttn==0) s=0; if(s==0) fb= i%3==0? r.g.R: i%3==1? r.g.R/2: 1; else if(s%(r.g.R/2)==0&&i%2) fb=r.g.R/2; }
    r.cycle(fb);
  }
}
template<class S> void every(int what,const Cfg& c,int L,uint64_t code,int nc)
{
  Run<S> r(c,what); mc::Radix x(code);
  for(int i=0;i<L;++i){ int o=x(nc+1); if(o) r.command(o-1); if(!fits(r.g.N,r.g.step/r.g.R)) return; r.cycle(1); }
  for(int i=0;i<2*r.g.step+1;++i) r.cycle(1);
}
// long walks with stops and new starts, many control cycles per sample, long steps
template<class S> void marathon(int what,uint64_t i,int L)
{
  static const Cfg es[]={{4,1,2,1,0.1,0},{16,1,6,2,0.1,1},{3,5,2,1,0.05,2},{10,4,8,3,0.02,0},{2,10,3,2,0.1,1},{20,2,7,9,0.1,1}}; mc::Radix x(i);
  Run<S> r(es[x(6)],what); int per=x(8),cmd=x(5); r.patt=(int)(i%2); r.setMove(true);
  for(int k=0;k<L;++k){ if(per&&k%(11+13*per)==10+13*per) r.command(0); if(cmd&&k%41==40) r.command(cmd); if(!fits(r.g.N,r.g.step/r.g.R)) return; int s=r.g.ttn%r.g.R; r.cycle(s==0&&k%9==0?r.g.R:1); }
}
void all(int what)
{
  mc::cases("marathons",6*8*5,[&](uint64_t i){ int L=mc::ctx.thorough?4000:600; marathon<double>(what,i,L); mc::clearNotes(); marathon<float>(what,i,L); });
  bool th=mc::ctx.thorough; std::vector<Cfg> cs;
  static const int Ns[]={1,2,3,4,6,9}; static const double Ts[]={0.125,0.1,1};
  for(int N:Ns) for(int R:{1,2,4}) for(int st:{2,3,4,6}) for(int ds:{1,2,3}) if(fits(N,st)) cs.push_back(Cfg{N,R,st,ds,Ts[(N+R+st+ds)%3],(N+st+ds)%3});
  if(!(what&FEET)) for(int N:Ns) for(int R:{1,3}) cs.push_back(Cfg{N,R,1,2,0.125,0});
  auto len=[](const Cfg& c){ return c.R*(c.ds+3*c.step+2); };
  // one command anywhere, then two commands anywhere
  mc::cases("one command anywhere",cs.size()*3,[&](uint64_t i){ const Cfg& c=cs[i/3]; int L=len(c); for(int p=0;p<L;++p) for(int k=0;k<5;++k) for(int m=0;m<2;++m){ placed<double>(what,c,L,1,p,k,(int)(i%3),m); mc::clearNotes(); placed<float>(what,c,L,1,p,k,(int)(i%3),m); mc::clearNotes(); } if(i==3*40){ placed<double>(what,c,L,1,L/2,0,1,false); mc::sample(); } });
  mc::cases("two commands anywhere",cs.size()*25,[&](uint64_t i){ const Cfg& c=cs[i/25]; int L=len(c); int d= th||c.R<2?1:2; for(int p=0;p<L;p+=d) for(int q=p;q<L;q+=d){ placed<double>(what,c,L,2,(uint64_t)p+(uint64_t)q*L,i%25,1,false); mc::clearNotes(); } });
  mc::cases("three commands anywhere",cs.size()*125,[&](uint64_t i){ const Cfg& c=cs[i/125]; if(c.R>(th?2:1)||(!th&&c.step>3)||(!th&&c.N!=4&&c.N!=2)) return; int L=len(c); for(int p=0;p<L;++p) for(int q=p;q<L;++q) for(int s=q;s<L;++s){ placed<double>(what,c,L,3,(uint64_t)p+(uint64_t)q*L+(uint64_t)s*L*L,i%125,1,false); mc::clearNotes(); } });
  // every sequence of commands
  static const Cfg es[]={{4,1,2,1,0.125,0},{3,1,2,2,0.1,1},{5,1,3,1,0.125,2},{2,1,3,1,0.1,0},{3,2,2,1,0.125,1}};
  int D= th?8:6;
  mc::cases("every sequence of commands",5*mc::ipow(5,D-2),[&](uint64_t i){ for(int k=0;k<25;++k){ every<double>(what,es[i%5],D,i/5+(uint64_t)k*mc::ipow(5,D-2),4); mc::clearNotes(); } });
  int E= th?14:11;
  mc::cases("every sequence of start, stop and longer steps",5*mc::ipow(3,E-3),[&](uint64_t i){ for(int k=0;k<27;++k){ every<double>(what,es[i%5],E,i/5+(uint64_t)k*mc::ipow(3,E-3),2); mc::clearNotes(); } });
}
}
MC_CHECK(H01){ all(SCHED); }
MC_CHECK(H02){ all(PLAN); }
MC_CHECK(H03){ all(FEET); }
