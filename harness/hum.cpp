// H04-H08: the humanoid generator along histories of start, stop, timing and
// configuration commands, against a recording solver and a reference model.
#include "ref.h"
#include "gait.h"
#include "hum.h"
#include <mpc-walkgen/humanoid_walkgen.h>
using namespace MPCWalkgen;
using gait::Gait; using qp::V; using qp::M; using qp::Aff;

namespace hum
{
template<class S> struct Tol;
template<> struct Tol<double>{ static double t(){return 1e-9;} static double cost(){return 1e-6;} };
template<> struct Tol<float>{ static double t(){return 2e-4;} static double cost(){return 2e-3;} };
typedef std::vector<std::pair<double,double>> Pts;
// what the feet can reach, by support foot; soles by foot
static const double LITTLE=1/32768.0;   // less than the library's tolerance
static const Pts& reach(int foot,int k)
{
  static const Pts p[2][4]={
    { {{-0.25,-0.5},{0.375,-0.5},{0.375,-0.1875},{-0.25,-0.1875}}, {{-0.25,-0.5},{0.375,-0.4375},{0.3125,-0.1875},{-0.1875,-0.25}}, {{-0.25,-0.4375},{0.25,-0.4375},{0.375,-0.3125},{0.25,-0.1875},{-0.25,-0.1875}}, {{-0.25,-0.5},{0.375+LITTLE,-0.4375},{0.3125,-0.1875},{-0.1875,-0.25}} },
    { {{-0.25,0.1875},{0.375,0.1875},{0.375,0.5},{-0.25,0.5}}, {{-0.3125,0.1875},{0.25,0.25},{0.375,0.5},{-0.25,0.4375}}, {{-0.25,0.1875},{0.3125,0.25},{0.3125,0.5}}, {{-0.3125,0.1875},{0.25,0.25},{0.375,0.5+LITTLE},{-0.25,0.4375}} } };
  return p[foot][k];
}
static const Pts& sole(int foot,int k)
{
  static const Pts p[2][4]={
    { {{-0.0625,-0.03125},{0.125,-0.03125},{0.125,0.046875},{-0.0625,0.046875}}, {{-0.0625,-0.03125},{0.125,-0.046875},{0.15625,0},{0,0.0625}}, {{-0.0625,0},{0.125,-0.0625},{0.09375,0.0625}}, {{-0.0625,-0.03125},{0.125,-0.046875},{0.15625,LITTLE},{0,0.0625}} },
    { {{-0.0625,-0.046875},{0.125,-0.046875},{0.125,0.03125},{-0.0625,0.03125}}, {{-0.0625,-0.046875},{0.125,-0.046875},{0.15625,0},{0.125,0.03125},{-0.0625,0.03125}}, {{-0.09375,0},{0,-0.0625},{0.125,0},{0,0.0625}}, {{-0.0625,-0.046875},{0.125,-0.046875},{0.15625+LITTLE,0},{0.125,0.03125},{-0.0625,0.03125}} } };
  return p[foot][k];
}
static const double W[][3]={{1,0,0},{0,0.5,0},{0,0,0.01},{1,10,0.001},{0.25,0,0.0625},{0,0,0},{1,0.0625,1e-5},{1,0.5,1e-4},{0.5,4,1e-6}}; // velocity, centring, jerk

// extreme points of a point list, counter-clockwise
static Pts hullOf(Pts p)
{
  std::sort(p.begin(),p.end()); p.erase(std::unique(p.begin(),p.end()),p.end()); int n=p.size(); Pts h(2*n); int k=0;
  auto cr=[](std::pair<double,double> o,std::pair<double,double> a,std::pair<double,double> b){ return (a.first-o.first)*(b.second-o.second)-(a.second-o.second)*(b.first-o.first); };
  for(int i=0;i<n;++i){ while(k>=2&&cr(h[k-2],h[k-1],p[i])<=0) --k; h[k++]=p[i]; }
  for(int i=n-2,t=k+1;i>=0;--i){ while(k>=t&&cr(h[k-2],h[k-1],p[i])<=0) --k; h[k++]=p[i]; }
  h.resize(std::max(1,k-1)); return h;
}
struct Cfg { int N,R,step,ds; double T,h; int shape,w,bits,order; };   // step, ds in samples

template<class S> struct Run
{
  typedef typename Type<S>::VectorX VS;
  HumanoidWalkgen<S>* own; HumanoidWalkgen<S>& g; Gait ga; int what; double tick=1; // ticks of the reference schedule, in s
  VS X; bool firstCall=true; V com[2],vel; double h=1,w[3]={0,0,0}; int bits=0; int so[2]={-1,-1},re[2]={-1,-1};
  V foot[2][3]; double sup[2]={0,0}; int cyc=0; double lastS=0; bool flew=false; double maxH[2]={0,0};
  std::function<bool(const qp::Call&,V&)> exact; // another environment than the patterns
  explicit Run(int wh):own(qp::make<HumanoidWalkgen<S>>()),g(*own),what(wh){ qp::env.reset(); init(); }
  Run(int wh,HumanoidWalkgen<S>& o):own(nullptr),g(o),what(wh){ init(); }
  ~Run(){ qp::unmake(own); }
  void init(){ ga.N=1; ga.R=1; ga.step=ga.ds=ga.ttn=ga.dur=2; com[0]=com[1]=V::Zero(3); vel=V::Zero(2); X=VS::Zero(2); for(auto& a:foot) for(auto& v:a) v=V::Zero(3); }
  static VS c(const V& v){ return v.template cast<S>(); }
  static double q(double v){ return (double)(S)v; }
  static V v3(double a,double b,double d){ V v(3); v<<q(a),q(b),q(d); return v; }
  static ConvexPolygon<S> poly(const Pts& p){ typename Type<S>::vectorOfVector2 v; for(auto& x:p) v.push_back(typename Type<S>::Vector2((S)x.first,(S)x.second)); return ConvexPolygon<S>(v); }
  double T() const { return tick*ga.R; }
  // ---- commands (each mirrored in the reference) ----
  void nb(int N){ mc::note("setNbSamples(%d)",N); g.setNbSamples(N); ga.N=N; X=VS::Zero(2*N); velRef(0); }
  void fresh(double T,int R){ mc::note("setSamplingPeriod(%g), control cycles of %g s",T,T/R); g.setSamplingPeriod((S)T); tick=T/R; ga.R=R; ga.step=ga.ds=ga.ttn=ga.dur=(int)std::lround(2/tick); }
  void period(int R){ mc::note("setSamplingPeriod(%g)",tick*R); g.setSamplingPeriod((S)(tick*R)); ga.R=R; }
  void setStep(int ticks){ mc::note("setStepPeriod(%g)",ticks*tick); g.setStepPeriod((S)(ticks*tick)); ga.setStep(ticks); }
  void setDs(int ticks){ mc::note("setInitialDoubleSupportLength(%g)",ticks*tick); g.setInitialDoubleSupportLength((S)(ticks*tick)); ga.setDs(ticks); }
  void soles(int f,int k){ mc::note("set%sFootCopConvexPolygon(shape %d)",f?"Right":"Left",k); if(f) g.setRightFootCopConvexPolygon(poly(sole(1,k))); else g.setLeftFootCopConvexPolygon(poly(sole(0,k))); so[f]=k; }
  void reaches(int f,int k){ mc::note("set%sFootKinematicConvexPolygon(shape %d)",f?"Right":"Left",k); if(f) g.setRightFootKinematicConvexPolygon(poly(reach(1,k))); else g.setLeftFootKinematicConvexPolygon(poly(reach(0,k))); re[f]=k; }
  void velRef(int k){ vel=V(2*ga.N); for(int i=0;i<2*ga.N;++i) vel(i)=q(k==0?0: k==1? 0.25-0.0625*i: k==2? ((i%3)-1)*0.125: k==3? (i<ga.N?0.1875:-0.0625): k==4? (i<ga.N?0.25:0): k==5? (i<ga.N?-0.125:0.09375): 0); mc::note("setVelRefInWorldFrame(pattern %d)",k); g.setVelRefInWorldFrame(c(vel)); }
  void comState(int ax,const V& v){ mc::note("setComState%c(%g,%g,%g)",'X'+ax,v(0),v(1),v(2)); if(ax) g.setComStateY(c(v)); else g.setComStateX(c(v)); com[ax]=v; }
  void height(double z){ mc::note("setComStateZ(%g,0,0)",z); g.setComStateZ(c(v3(z,0,0))); h=q(z); }
  void footState(int f,int a,const V& v){ mc::note("set%sFootState%c(%g,..)",f?"Right":"Left",'X'+a,v(0)); VS s=c(v); if(f==0){ if(a==0) g.setLeftFootStateX(s); else if(a==1) g.setLeftFootStateY(s); else g.setLeftFootStateZ(s); } else { if(a==0) g.setRightFootStateX(s); else if(a==1) g.setRightFootStateY(s); else g.setRightFootStateZ(s); } foot[f][a]=v; }
  void maxHeight(int f,double z){ if(f) g.setRightFootMaxHeight((S)z); else g.setLeftFootMaxHeight((S)z); maxH[f]=q(z); }
  void weights(int k){ weights(W[k]); }
  void weights(const double* k){ mc::note("setWeightings(velocity %g, centring %g, jerk %g)",k[0],k[1],k[2]); HumanoidWalkgenWeighting<S> x; x.velocityTracking=(S)k[0]; x.copCentering=(S)k[1]; x.jerkMinimization=(S)k[2]; g.setWeightings(x); for(int i=0;i<3;++i) w[i]=q(k[i]); }
  void config(int b){ mc::note("setConfig(cop %d, feet %d)",b&1,b>>1); HumanoidWalkgenConfig<S> x; x.withCopConstraints=b&1; x.withFeetConstraints=b&2; g.setConfig(x); bits=b; }
  void move(bool m){ mc::note("setMove(%s)",m?"true":"false"); g.setMove(m); ga.move=m; if(ga.type==gait::DS) firstCall=true; }
  bool plannedSteps() const { return (int)X.rows()>2*ga.N; }
  bool ready() const { return so[0]>=0&&so[1]>=0&&re[0]>=0&&re[1]>=0&&ga.step<=(ga.N+1)*ga.R; }
  void setup(const Cfg& f)
  {
    auto A=[&]{ nb(f.N); fresh(f.T,f.R); setStep(f.step*f.R); setDs(f.ds*f.R); };
    auto B=[&]{ for(int k=0;k<2;++k){ soles(k,f.shape); reaches(k,f.shape); } };
    auto C=[&]{ weights(f.w); config(f.bits); };
    if(f.order==0){ A();B();C(); } else if(f.order==1){ C();B();A(); } else { B();C();A(); }
    velRef(1); height(f.h); comState(0,v3(0.0625,0.03125,-0.125)); comState(1,v3(0.015625,-0.0625,0.0625));
    footState(0,0,v3(0.125,0,0)); footState(0,1,v3(0.125,0,0)); footState(1,0,v3(0.0625,0,0)); footState(1,1,v3(-0.1875,0,0)); footState(0,2,v3(0,0,0)); footState(1,2,v3(0,0,0));
    maxHeight(0,0.0625); maxHeight(1,0.03125);
  }
  static double mid(const Pts& p,int a){ double lo=1e9,hi=-1e9; for(auto& v:p){ double x=a?v.second:v.first; lo=std::min(lo,x); hi=std::max(hi,x); } return (lo+hi)/2; }

  // ---- one control cycle ----
  void plan()          // the plan at the beginning of the cycle
  {
    int N=ga.N,oldM=(int)X.rows()/2-N; ga.update(); int M=ga.M;
    std::vector<S> sx,sy; for(int i=0;i<oldM;++i){ sx.push_back(X(2*N+i)); sy.push_back(X(2*N+oldM+i)); }
    if(ga.dropped&&!sx.empty()){ sx.erase(sx.begin()); sy.erase(sy.begin()); }
    if((int)sx.size()>M){ sx.resize(M); sy.resize(M); }
    bool mean=ga.type==gait::DS&&!ga.move; int cur=ga.type==gait::RIGHT?1:0;
    for(int a=0;a<2;++a) sup[a]= mean? 0.5*(foot[0][a](0)+foot[1][a](0)): foot[cur][a](0);
    while((int)sx.size()<M)
    {
      int k=(int)sx.size(); const Pts& p=reach(ga.support[k]==gait::LEFT?0:1,re[ga.support[k]==gait::LEFT?0:1]);
      sx.push_back((S)((k?(double)sx[k-1]:sup[0])+mid(p,0))); sy.push_back((S)((k?(double)sy[k-1]:sup[1])+mid(p,1)));
    }
    VS Y(2*N+2*M); Y.head(2*N)=X.head(2*N); for(int i=0;i<M;++i){ Y(2*N+i)=sx[i]; Y(2*N+M+i)=sy[i]; } X=Y;
    if(firstCall)
    {
      for(int a=0;a<2;++a){ double p=com[a](0)-h*com[a](2)/9.81-foot[0][a](0); for(int i=0;i<N;++i) X(a*N+i)=(S)p; }
      firstCall=false;
    }
  }
  void cost(const qp::Call& k) const
  {
    int N=ga.N,M_=ga.M,n=2*N+2*M_; double S_=ga.S*tick,T_=T();
    V X0=X.template cast<double>(); qp::Cost ref(n,X0);
    ref::Lin p=ref::preview(ref::POS,N,S_,T_),v=ref::preview(ref::VEL,N,S_,T_),a=ref::preview(ref::ACC,N,S_,T_);
    double f=h/9.81; M C=p.u-f*a.u,s0=p.s-f*a.s; M Ci=M::Zero(N,N);
    for(int j=0;j<N;++j) for(int i=j;i<N;++i){ long double r= i==j; for(int k2=j;k2<i;++k2) r-=(long double)C(i,k2)*Ci(k2,j); Ci(i,j)=(double)(r/C(i,i)); }
    for(int ax=0;ax<2;++ax)
    {
      std::vector<Aff> rhs,u;
      for(int i=0;i<N;++i)
      {
        Aff e(n); e.a(ax*N+i)=e.aa(ax*N+i)=1; if(ga.col[i]>=0) e.a(2*N+ax*M_+ga.col[i])=e.aa(2*N+ax*M_+ga.col[i])=1; else e.plus(sup[ax]);
        e.b-=s0.row(i).dot(com[ax]); e.bb+=s0.row(i).cwiseAbs().dot(com[ax].cwiseAbs()); rhs.push_back(e);
      }
      // the library drops entries of the inverse below 1e-4
      for(int i=0;i<N;++i){ Aff e(n); for(int j=0;j<=i;++j){ double c=Ci(i,j); e.a+=c*rhs[j].a; e.b+=c*rhs[j].b; double m=std::fabs(c)+100; e.aa+=m*rhs[j].aa; e.bb+=m*rhs[j].bb; } u.push_back(e); }
      for(int i=0;i<N;++i)
      {
        double wt=1; if(i==0) wt=S_/T_; if(i==N-1) wt=1.05-S_/T_; // the library's weights of the first and last sample
        Aff e(n); e.b=v.s.row(i).dot(com[ax]); e.bb=v.s.row(i).cwiseAbs().dot(com[ax].cwiseAbs()); for(int j=0;j<=i;++j) e.plus(v.u(i,j),u[j]); e.plus(-vel(ax*N+i));
        qp::addAff(ref,w[0]*wt,e); qp::addAff(ref,w[2]*wt,u[i]);
        Aff z(n); z.a(ax*N+i)=z.aa(ax*N+i)=1; qp::addAff(ref,w[1],z);
      }
    }
    qp::compareCost("cost",ref,k,Tol<S>::cost());
  }
  static void within(std::vector<qp::Half>& hs,const Pts& p,int n,int ix,int iy,int px,int py,double ox,double oy,int tag)
  { // (X[ix],X[iy]) - (X[px],X[py]) - o inside the polygon
    int m=p.size();
    for(int i=0;i<m;++i)
    {
      double ax=p[i].first,ay=p[i].second,bx=p[(i+1)%m].first,by=p[(i+1)%m].second,nx=by-ay,ny=ax-bx; V r=V::Zero(n);
      r(ix)+=nx; r(iy)+=ny; if(px>=0){ r(px)-=nx; r(py)-=ny; } qp::addHalf(hs,r,nx*ax+ny*ay+nx*ox+ny*oy,tag);
    }
  }
  static Pts round(const Pts& p){ Pts o; for(auto& v:p) o.push_back({q(v.first),q(v.second)}); return o; }
  Pts dsPoly() const
  {
    double l[2]={foot[0][0](0),foot[0][1](0)},r[2]={foot[1][0](0),foot[1][1](0)},o[2]; int N=ga.N,M_=ga.M;
    if(ga.type!=gait::DS&&!ga.move){ double* z= ga.type==gait::LEFT? r: l; z[0]=X(2*N); z[1]=X(2*N+M_); o[0]=z[0]; o[1]=z[1]; }
    else if(ga.type==gait::DS&&!ga.move){ o[0]=0.5*(l[0]+r[0]); o[1]=0.5*(l[1]+r[1]); }
    else { o[0]=l[0]; o[1]=l[1]; }
    Pts p; for(auto& v:round(sole(0,so[0]))) p.push_back({v.first+l[0]-o[0],v.second+l[1]-o[1]}); for(auto& v:round(sole(1,so[1]))) p.push_back({v.first+r[0]-o[0],v.second+r[1]-o[1]});
    return hullOf(p);
  }
  void sets(const qp::Call& k) const
  {
    int N=ga.N,M_=ga.M,n=2*N+2*M_; V X0=X.template cast<double>(); double tol=Tol<S>::t()*100;
    std::vector<qp::Half> ref,got=qp::halves(k,X0); Pts ds; bool have=false;
    if(bits&1) for(int i=0;i<N;++i)
    {
      if(ga.kind[i]==gait::DS&&!have){ ds=dsPoly(); have=true; }
      within(ref,ga.kind[i]==gait::DS?ds:round(sole(ga.kind[i]==gait::RIGHT?1:0,so[ga.kind[i]==gait::RIGHT?1:0])),n,i,N+i,-1,-1,0,0,1);
    }
    if(bits&2) for(int s=0;s<M_;++s)
    {
      int f=ga.support[s]==gait::LEFT?0:1; Pts p=round(reach(f,re[f]));
      if(s==0) within(ref,p,n,2*N,2*N+M_,-1,-1,sup[0],sup[1],2); else within(ref,p,n,2*N+s,2*N+M_+s,2*N+s-1,2*N+M_+s-1,0,0,2);
    }
    if(what&COP) qp::compareSets("cop",ref,got,tol,1,!(bits&2));
    if(what&STEPS) qp::compareSets("step",ref,got,tol,2,!(bits&1));
    if((bits&3)==3&&(what&(COP|STEPS))) // nothing else is excluded
      for(auto& hh:got){ V w2; if(!qp::hasMatch(ref,hh,tol)&&!qp::implied(ref,hh,20*tol,w2)){ bool steps=hh.n.tail(2*M_).cwiseAbs().size()&&hh.n.tail(2*M_).cwiseAbs().maxCoeff()>0; if(steps==((what&STEPS)!=0)) mc::fail(steps?"step-excludes":"cop-excludes","the problem excludes an admissible plan by a constraint that none of the polygons implies"); } }
  }
  void solve(int fb,int ans,bool ok)
  {
    double fbs=fb*tick, tol=Tol<S>::t();
    mc::note("solve(%g) (%s, %g s left), solver %s %d, %s",fbs,gait::name(ga.type),ga.ttn*tick,ans<0?"proposes nothing":"answers pattern",ans,ok?"success":"failure");
    qp::between(); plan(); int N=ga.N,M_=ga.M,n=2*N+2*M_;
    VS given=VS::Zero(n); for(int i=0;i<n;++i) given(i)=(S)(ans<=0?0: ans==1? (i<2*N?0.015625:0.0078125)*((i*3+cyc)%5-2): (i<2*N?-0.03125:0.015625)*((i+2*cyc)%4-1.5));
    qp::env.calls.clear();
    qp::env.answer=[&](const qp::Call& k,V& s){ if(ans<0&&!exact){ s.resize(0); return ok=false; } if(k.nbVar==n) s=given.template cast<double>(); if(exact){ bool r=exact(k,s); for(int i=0;i<n;++i) given(i)=(S)s(i); return r; } return ok; };
    bool ret=g.solve((S)fbs); qp::env.answer=nullptr; mc::transition(); mc::traceDone(); ++cyc; qp::saw(g.getComStateX()); qp::saw(g.getComStateY()); qp::saw(g.getComStateZ()); qp::saw(g.getLeftFootStateX()); qp::saw(g.getLeftFootStateY()); qp::saw(g.getLeftFootStateZ()); qp::saw(g.getRightFootStateX()); qp::saw(g.getRightFootStateY()); qp::saw(g.getRightFootStateZ()); qp::saw1(ret);
    qp::Call k=qp::env.last();
    if(k.nbVar!=n) mc::fail("size","a problem of %d variables for %d samples and %d previewed steps",k.nbVar,N,M_);
    if(what&COST) cost(k);
    if(what&(COP|STEPS)) sets(k);
    if((what&WARM)&&k.warm&&k.wasInit&&!k.sameAsInit) mc::fail("warm","a warm start was asked for a problem with other matrices");
    if((what&WARM)&&k.warm&&k.wasInit&&!k.keptInPlace) mc::fail("kept","a warm start was asked although the matrices that the solver was initialised with are no longer where they were");
    X+=given;
    // centre of mass: first jerk of the motion that meets the planned centre of pressure
    double S_=ga.S*tick,f=h/9.81; V a[2]={g.getComStateX().template cast<double>(),g.getComStateY().template cast<double>()};
    for(int ax=0;ax<2;++ax)
    {
      double cop=X(ax*N)+(ga.col[0]>=0?(double)X(2*N+ax*M_+ga.col[0]):sup[ax]);
      V s=com[ax]; double free=s(0)+s(1)*S_+s(2)*S_*S_/2-f*s(2), gain=S_*S_*S_/6-f*S_, u=(cop-free)/gain; ref::advance(s,u,fbs);
      if(what&STATE)
      {
        mc::checked(4); double sc=1+com[ax].cwiseAbs().maxCoeff()+std::fabs(u)*fbs;
        for(int i=0;i<3;++i) if(!(std::fabs(a[ax](i)-s(i))<=(tol*10+1e-5*(sizeof(S)==4))*sc)) mc::fail("com","centre of mass along %c (%g,%g,%g) after the solve, expected (%g,%g,%g): planned centre of pressure %g at the first sample",'x'+ax,a[ax](0),a[ax](1),a[ax](2),s(0),s(1),s(2),cop);
      }
      com[ax]=a[ax];
    }
    if((what&STATE)&&!exact&&ret!=ok) mc::fail("return","solve returned %d but the solver %s",(int)ret,ok?"succeeded":"failed");
    // feet
    V now[2][3]={{g.getLeftFootStateX().template cast<double>(),g.getLeftFootStateY().template cast<double>(),g.getLeftFootStateZ().template cast<double>()},{g.getRightFootStateX().template cast<double>(),g.getRightFootStateY().template cast<double>(),g.getRightFootStateZ().template cast<double>()}};
    bool fly=ga.flying(); int sw=ga.type==gait::LEFT?1:0; int left=ga.ttn-fb;
    if(what&STATE)
    {
      mc::checked(7); static const char* side[]={"left","right"};
      for(int k2=0;k2<2;++k2) if(!(fly&&k2==sw)) for(int ax=0;ax<3;++ax) if(now[k2][ax]!=foot[k2][ax]) mc::fail("support-moved","the %s foot moved along %c while it supports the robot",side[k2],'x'+ax);
      if(fly&&left==0&&M_>0) for(int ax=0;ax<3;++ax)
      {
        double e= ax<2? (double)X(2*N+ax*M_): 0, lt=tol*100; if(!(std::fabs(now[sw][ax](0)-e)<=lt&&std::fabs(now[sw][ax](1))<=lt/fbs)) mc::fail("landing","the %s foot lands with %c state (%g,%g,..), planned %g at rest",side[sw],'x'+ax,now[sw][ax](0),now[sw][ax](1),e);
      }
      V z(3); z<<h,0,0; if(!(std::fabs(g.getComStateZ()(0)-h)<=tol)) mc::fail("com-height","height of the centre of mass %g, expected %g",(double)g.getComStateZ()(0),h);
    }
    for(int k2=0;k2<2;++k2) for(int ax=0;ax<3;++ax) foot[k2][ax]=now[k2][ax];
    ga.pass(fb);
    mc::Hash hh; hh(ga.type)(ga.ttn)(ga.dur)(ga.move)(ga.movedThen)(ga.planned)(ga.step)(ga.ds)(ga.N)(ga.R)(bits)(so[0])(so[1])(re[0])(re[1]).vec(X).vec(com[0]).vec(com[1]).vec(vel).d(h); for(double x:w) hh.d(x); mc::state(hh.h);
    mc::Hash ho; ho.vec(k.p).vec(k.bu); mc::outcome(ho.h);
  }
  // events of a walk
  static const int NEV=16;
  void event(int e)
  {
    qp::between();
    switch(e)
    {
      case 0: break;
      case 1: move(!ga.move); break;
      case 2: { int s=ga.step/ga.R==2?3: 2; if(ga.flying()||!ga.canSetStep(s*ga.R)||s>ga.N+1) break; setStep(s*ga.R); break; }
      case 3: { int s=ga.ds/ga.R==2?1: 2; if(!ga.canSetDs(s*ga.R)) break; setDs(s*ga.R); break; }
      case 4: velRef(2); break;
      case 5: velRef(3); break;
      case 6: weights(3); break;
      case 7: weights(4); break;
      case 8: config(3); break;
      case 9: config(bits==1?2:1); break;
      case 10: comState(0,v3(foot[0][0](0)+0.03125,0.125,0.25)); break;
      case 11: comState(1,v3(-0.03125,0.0625,-0.5)); break;
      case 12: height(h>0.7?0.625:0.875); break;
      case 13: soles(0,(so[0]+1)%3); break;
      case 14: soles(1,(so[1]+1)%3); reaches(0,(re[0]+2)%3); break;
      case 15: reaches(1,(re[1]+1)%3); break;
    }
  }
  // events that change one number only, the rest stays as it is
  static const int FINE=63;
  void fine(int o)
  {
    qp::between(); if(o==0) return; o-=1;
    static const double w3[3][3]={{0,0.5,2},{0,0.5,2},{0,0.001,0.125}};
    if(o<9){ double x[3]={w[0],w[1],w[2]}; x[o/3]=w3[o/3][o%3]; weights(x); return; } o-=9;
    if(o<2){ config(bits^(1<<o)); return; } o-=2;
    if(o<8){ int i=o/2; i= i==0? 0: i==1? ga.N-1: i==2? ga.N: 2*ga.N-1; vel(i)= o%2? 0: 0.3125; mc::note("velocity reference: entry %d becomes %g",i,vel(i)); g.setVelRefInWorldFrame(c(vel)); return; } o-=8;
    if(o<6){ V v=com[o/3]; v(o%3)= o%3==0? foot[0][o/3](0)+0.046875: o%3==1? -0.125: 0.25; comState(o/3,v); return; } o-=6;
    if(o<3){ static const double z[]={0.625,0.875,0.7265625}; height(z[o]); return; } o-=3;
    if(o<12){ if(o<6) soles(o/3,o%3); else reaches(o/3-2,o%3); return; } o-=12;
    if(o<12){ int f=o/6,a=o%6/2; V v=foot[f][a]; if(o%2) v=v3(v(0),0.0625,-0.125); else v=v3(v(0)+(a==2?0.015625:0.03125),v(1),v(2)); footState(f,a,v); return; } o-=12;
    if(o<4){ mc::note("maximum height of the %s foot %g",o/2?"right":"left",o%2?0.046875:0.0); maxHeight(o/2,o%2?0.046875:0.0); return; } o-=4;
    switch(o){ case 0: move(!ga.move); break; case 1: mc::note("setMove again"); g.setMove(ga.move); if(ga.type==gait::DS) firstCall=true; break; case 2: comState(0,com[0]); comState(1,com[1]); break; case 3: mc::note("the same velocity reference again"); g.setVelRefInWorldFrame(c(vel)); break; case 4: event(2); break; case 5: turning(); break; }
  }
  // the feet do not turn: what limits their turning changes nothing
  void turning()
  {
    mc::note("limits on turning, and a reference for it");
    g.setLeftFootYawUpperBound(S(0.25)); g.setRightFootYawUpperBound(S(0.375)); g.setLeftFootYawLowerBound(S(-0.3125)); g.setRightFootYawLowerBound(S(-0.4375));
    g.setLeftFootYawSpeedUpperBound(S(0.625)); g.setRightFootYawSpeedUpperBound(S(0.6875)); g.setLeftFootYawAccelerationUpperBound(S(1.25)); g.setRightFootYawAccelerationUpperBound(S(1.5));
    Eigen::Matrix<S,Eigen::Dynamic,1> a(ga.N); a.fill(S(0.875)); g.setAngularVelRefInWorldFrame(a);
  }
  // events that change one number by less than the library's tolerance
  static const int NUDGES=37;
  void nudge(int o,double z)
  {
    qp::between(); mc::note("one number changes by %g",z);
    if(o<3){ double x[3]={w[0],w[1],w[2]}; x[o]+=std::fabs(z); weights(x); return; } o-=3;
    if(o<4){ int i=o; i= i==0? 0: i==1? ga.N-1: i==2? ga.N: 2*ga.N-1; vel(i)=q(vel(i)+z); g.setVelRefInWorldFrame(c(vel)); return; } o-=4;
    if(o<6){ V v=com[o/3]; v(o%3)=q(v(o%3)+z); comState(o/3,v); return; } o-=6;
    if(o<1){ height(h+z); return; } o-=1;
    if(o<1){ soles(0,so[0]==1?3:1); return; } o-=1;
    if(o<1){ soles(1,so[1]==1?3:1); return; } o-=1;
    if(o<1){ reaches(0,re[0]==1?3:1); return; } o-=1;
    if(o<1){ reaches(1,re[1]==1?3:1); return; } o-=1;
    if(o<18){ int f=o/9,a=o%9/3; V v=foot[f][a]; v(o%3)=q(v(o%3)+z); footState(f,a,v); return; } o-=18;
    if(o<1) event(4);
  }
  int fbOf(int i) const { int s=ga.ttn%ga.R; return (i%3==1&&ga.R>1&&s==0)? ga.R: (i%3==2&&ga.R%2==0&&s%(ga.R/2)==0)? ga.R/2: 1; }
};
template<class S> void walk(int what,const Cfg& c,int L,std::vector<std::pair<int,int>> at,int pat,bool mixed,bool start=true)
{
  Run<S> r(what); r.setup(c); if(start) r.move(true);
  for(int i=0;i<L;++i)
  {
    for(auto& e:at) if(e.first==i) r.event(e.second);
    r.solve(mixed?r.fbOf(i):1,(i+pat)%10==3?-1:pat,(i+pat)%5!=3);
  }
}
// events that change one number, at given cycles
template<class S> void fineWalk(int what,const Cfg& c,int L,std::vector<std::pair<int,int>> at,int pat,bool start)
{
  Run<S> r(what); r.setup(c); if(start) r.move(true);
  for(int i=0;i<L;++i){ for(auto& e:at) if(e.first==i) r.fine(e.second); r.solve(1,(i+pat)%10==3?-1:pat,(i+pat)%5!=3); }
}
// nudges at two cycles, one after the other
template<class S> void nudgeWalk(int what,Cfg c,int p,int a,int b)
{
  c.shape=1; Run<S> r(what); r.setup(c); if(p%3!=2) r.move(true); double z=(a+b)%2?LITTLE:-LITTLE; int L=c.R*(c.ds+2*c.step);
  for(int i=0;i<L&&i<p+4;++i){ if(i==p) r.nudge(a,z); if(i==p+1) r.nudge(b,z); r.solve(1,1,true); }
}
// configuration calls in any order, from the very beginning
template<class S> struct Setup
{
  Run<S> r; Setup(int what):r(what){}
  static const int N=18;
  void op(int o)
  {
    qp::between();
    Gait& g=r.ga;
    switch(o)
    {
      case 0: case 1: case 2: { static const int n[]={1,2,4}; if(g.type!=gait::DS||r.plannedSteps()) break; r.nb(n[o]); break; }
      case 3: r.config(0); break; case 4: r.config(1); break; case 5: r.config(2); break; case 6: r.config(3); break;
      case 7: r.soles(0,1); break; case 8: r.soles(1,2); break; case 9: r.reaches(0,2); break; case 10: r.reaches(1,1); break;
      case 11: r.move(!g.move); break;
      case 12: { if(g.type!=gait::DS) break; int R=g.R==4?2:4; if(g.step<2*R) break; r.period(R); break; }
      case 13: if(g.flying()||!g.canSetStep(2*g.R)) break; r.setStep(2*g.R); break;
      case 14: if(!g.canSetDs(g.R)) break; r.setDs(g.R); break;
      case 15: solve(); break;
      case 16: for(int i=0;i<g.R*2;++i) solve(); break;
      case 17: solve(-1); break;
    }
  }
  void solve(int ans=1)
  {
    for(int f=0;f<2;++f){ if(r.so[f]<0) r.soles(f,0); if(r.re[f]<0) r.reaches(f,0); }
    if(r.ga.step>(r.ga.N+1)*r.ga.R) return;
    r.solve(1,ans,ans>0);
  }
};
template<class S> void setups(int what,int start,uint64_t code,int depth)
{
  Setup<S> s(what); Run<S>& r=s.r;
  if(start>0) r.setup(Cfg{3,4,2,1,0.25,0.75,0,3,start==1?3:1,start==1?0:1}); else { r.fresh(0.25,4); r.setStep(8); r.setDs(4); r.height(0.75); }
  if(start==2){ r.move(true); for(int i=0;i<6;++i) r.solve(1,1,true); }
  mc::Radix x(code); for(int i=0;i<depth;++i) s.op(x(Setup<S>::N));
  r.move(true); for(int i=0;i<9;++i) s.solve();
}
// magnitudes: weights and references far apart, large horizons, short and long periods, a robot far from the origin
static const uint64_t MAGN=125*3*4*6;
template<class S> static void magnitudes(int what,uint64_t i)
{
  mc::Radix x(i); static const double w[]={0,1e-6,1e-3,1,1e3}; double ws[3]; for(double& v:ws) v=w[x(5)]; int ms=x(3),ph=x(4),ci=x(6);
  static const Cfg es[]={{4,1,2,1,0.125,0.75,1,3,3,0},{10,2,4,2,0.1,0.5,0,3,3,1},{16,1,6,2,0.1,0.875,2,4,3,2},{2,1,2,1,0.5,1,0,3,1,0},{5,1,3,2,0.05,0.25,1,3,2,1},{8,4,5,3,0.2,1.5,2,3,3,0}};
  Run<S> r(what); r.setup(es[ci]); r.weights(ws); double m= ms==0?1e-3: ms==1? 1: 50, far= ph==1? 64: ph==2? -512: 0; r.vel*=m; r.vel=r.c(r.vel).template cast<double>(); mc::note("velocity reference times %g",m); r.g.setVelRefInWorldFrame(r.c(r.vel));
  r.comState(0,r.v3(0.0625+far,0.03125*m,-0.125)); r.comState(1,r.v3(0.015625-far,-0.0625,0.0625*m)); for(int f=0;f<2;++f) for(int a=0;a<2;++a){ V v=r.foot[f][a]; v(0)=r.q(v(0)+(a?-far:far)); r.footState(f,a,v); }
  if(ph==3) r.maxHeight(0,0.5);
  r.move(true); for(int k=0;k<es[ci].R*(es[ci].ds+es[ci].step+1);++k) r.solve(1,k%2?1:2,true);
}
// long walks: every event again and again, with stops and new starts
template<class S> static void marathon(int what,uint64_t i,int L)
{
  static const Cfg es[]={{4,1,2,1,0.125,0.75,1,3,3,0},{10,1,4,2,0.1,0.5,0,3,3,1},{3,2,2,1,0.1,0.875,2,4,3,2}}; mc::Radix x(i); const Cfg& c=es[x(3)]; int e=x(Run<S>::NEV),stops=x(2); Run<S> r(what); r.setup(c); r.move(true);
  for(int k=0;k<L;++k){ if(stops&&(k%37==36||k%61==60)) r.move(!r.ga.move); if(e>1&&k%17==16) r.event(e); if(k%10==9){ r.comState(0,r.v3(r.foot[0][0](0),0.125,0)); r.comState(1,r.v3(0.0625,-0.0625,0.125)); } r.solve(r.fbOf(k),k%14==5?-1:k%3,k%7!=5); }
}
void all(int what)
{
  mc::cases("magnitudes",MAGN,[&](uint64_t i){ if(!mc::ctx.thorough&&(what&FEW)&&i%7) return; if(what!=COST&&(i%125)%31) return; magnitudes<double>(what,i); });
  mc::cases("marathons",96,[&](uint64_t i){ if((what&FEW)&&i%4) return; marathon<double>(what,i,mc::ctx.thorough?1000:200); if(i%8==1){ mc::clearNotes(); marathon<float>(what,i,200); } });
  bool th=mc::ctx.thorough; std::vector<Cfg> cs;
  static const int Ns[]={1,2,3,4,6}; static const double Ts[]={0.125,0.1,0.25}, hs[]={0.75,0.5,1};
  int u=0; for(int N:Ns) for(int R:{1,2,4}) for(int st:{2,3}) for(int ds:{1,2}) if(st<=N+1){ ++u; cs.push_back(Cfg{N,R,st,ds,Ts[u%3],hs[u%3],u%3,u%6==5?0:u%6,u%7==0?0:u%7==1?1:u%7==2?2:3,(u/2)%3}); }
  auto len=[](const Cfg& c){ return c.R*(c.ds+3*c.step+1); };
  const int E=Run<double>::NEV;
  if(what!=SIZES) mc::cases("every configuration",cs.size()*3*4*6,[&](uint64_t i){ if((what&FEW)&&i%(mc::ctx.thorough?1:5)!=0) return; mc::Radix x(i); Cfg c=cs[x(cs.size())]; c.shape=x(3); c.bits=x(4); c.w=x(6); int L=len(c); walk<double>(what,c,L,{{L-3*c.R,1}},1+(int)(i%2),i%2); mc::clearNotes(); if(i%5==0) walk<float>(what,c,L,{{2*c.R,1}},1,i%3==0); if(i==40) mc::sample(); });
  static const Cfg es[]={{3,1,2,1,0.125,0.75,1,3,3,0},{4,2,2,1,0.1,0.5,0,3,3,1},{2,1,3,2,0.25,1,2,4,3,2},{6,1,3,1,0.1,0.75,2,3,3,0}};
  const int F=Run<double>::FINE;
  mc::cases("one number anywhere",4*F,[&](uint64_t i){ const Cfg& c=es[i%4]; int L=len(c); for(int p=0;p<L;++p) for(int st=0;st<2;++st){ fineWalk<double>(what,c,L,{{p,(int)i/4}},1+p%2,st); mc::clearNotes(); if((p+st)%3==0){ fineWalk<float>(what,c,L,{{p,(int)i/4}},1,st); mc::clearNotes(); } } });
  const int U=Run<double>::NUDGES;
  mc::cases("nudges",4*U*U,[&](uint64_t i){ if((what&FEW)&&i%3) return; const Cfg& c=es[i%4]; int a=(int)(i/4)%U,b=(int)(i/4)/U,L=c.R*(c.ds+2*c.step); for(int p=(int)(i%3);p<L;p+=th?1:3){ nudgeWalk<double>(what,c,p,a,b); mc::clearNotes(); } if(i%5==0) nudgeWalk<float>(what,c,2,a,b); });
  if(what&FEW) return;
  mc::cases("one event anywhere",cs.size()*(E-1),[&](uint64_t i){ Cfg c=cs[i%cs.size()]; int e=1+(int)(i/cs.size()); int L=len(c); for(int p=0;p<L;++p) { walk<double>(what,c,L,{{p,e}},(int)((i+p)%3),p%2); mc::clearNotes(); if((i+p)%4==0){ walk<float>(what,c,L,{{p,e}},1,p%2); mc::clearNotes(); } } });
  mc::cases("two events anywhere",4*E*E,[&](uint64_t i){ const Cfg& c=es[i%4]; int a=(int)(i/4)%E,b=(int)(i/4)/E; int L=len(c); for(int p=0;p<L;++p) for(int k=p;k<L;k+=(th||c.R==1)?1:2){ walk<double>(what,c,L,{{p,a},{k,b}},1,false); mc::clearNotes(); } });
  mc::cases("two numbers, one after the other",F*F,[&](uint64_t i){ int a=(int)i%F,b=(int)i/F; for(int k=0;k<(th?4:2);++k){ const Cfg& c=es[k==1?2:k==2?1:k]; int L=c.R*(c.ds+c.step+1); for(int p=0;p<(th?L:4);++p) for(int d=0;d<2;++d){ fineWalk<double>(what,c,std::min(L,p+d+3),{{p,a},{p+d,b}},1,p%3!=2); mc::clearNotes(); } } });
  int D= th?4:3;
  mc::cases("every sequence of events",3*mc::ipow(E,D-1),[&](uint64_t i){ for(int k=0;k<E;++k){ mc::Radix x(i/3+(uint64_t)k*mc::ipow(E,D-1)); std::vector<std::pair<int,int>> at; for(int d=0;d<D;++d) at.push_back({d+(int)(i%2),x(E)}); const Cfg& c=es[i%3]; walk<double>(what,c,c.R*(c.ds+c.step+1),at,1,false,k%2==0); mc::clearNotes(); } });
  if(what&(SIZES|WARM))
  {
    int K=Setup<double>::N,Q=th?4:3;
    mc::cases("every sequence of configuration calls",3*mc::ipow(K,Q-1),[&](uint64_t i){ for(int k=0;k<K;++k){ setups<double>(what,(int)(i%3),i/3+(uint64_t)k*mc::ipow(K,Q-1),Q); mc::clearNotes(); } });
    mc::cases("configuration calls in single precision",3*K*K,[&](uint64_t i){ setups<float>(what,(int)(i%3),i/3,2); });
  }
}
// ---- E01: the loop closed with an exact solver ----
struct Loop
{
  Run<double> r; double worst=0; bool wantStart=false; explicit Loop(const Cfg& c):r(0)
  {
    r.setup(c); r.comState(0,V::Zero(3)); r.comState(1,V::Zero(3)); r.footState(0,0,V::Zero(3)); r.footState(1,0,V::Zero(3)); V a(3); a<<0.09375,0,0; r.footState(0,1,a); a(0)=-0.09375; r.footState(1,1,a); r.velRef(0);
    r.exact=[this](const qp::Call& given,V& s){ qp::Call k=qp::asKept(given); int n=(int)k.p.size(); auto hs=qp::halves(k,V::Zero(n)); qp::Res o=qp::solveQP(k.Q+1e-12*k.Q.cwiseAbs().maxCoeff()*M::Identity(n,n),k.p,hs); if(!o.feasible) mc::fail("infeasible","the problem of this cycle has no solution"); s=o.x; return true; };
  }
  static double outside(const Pts& p,double x,double y){ double w=-1e9; int m=p.size(); for(int i=0;i<m;++i){ double ax=p[i].first,ay=p[i].second,bx=p[(i+1)%m].first,by=p[(i+1)%m].second,l=std::hypot(bx-ax,by-ay); w=std::max(w,((by-ay)*(x-ax)-(bx-ax)*(y-ay))/l); } return w; }
  Pts area(int kind) const { Pts p; for(int f=0;f<2;++f) if(kind==gait::DS||kind==(f?gait::RIGHT:gait::LEFT)) for(auto& v:sole(f,r.so[f])) p.push_back({v.first+r.foot[f][0](0),v.second+r.foot[f][1](0)}); return hullOf(p); }
  void cycle()
  {
    if(wantStart&&r.ga.type==gait::DS&&(r.ga.ttn==0||r.ga.ttn==r.ga.dur)){ r.move(true); wantStart=false; }
    Gait before=r.ga; V f0[2]={r.foot[0][2],r.foot[1][2]}; r.solve(1,0,true); const Gait& g=r.ga; mc::checked(3);
    double cop[2]; for(int a=0;a<2;++a) cop[a]=r.com[a](0)-r.h/9.81*r.com[a](2);
    if(g.S==1) // the cycle ends at a sample
    {
      double o=outside(area(g.kind[0]),cop[0],cop[1]); worst=std::max(worst,o);
      if((r.bits&1)&&o>1e-4) mc::fail("balance","the centre of pressure (%g,%g) is %g outside of the support area (%s)",cop[0],cop[1],o,gait::name(g.kind[0]));
    }
    if(g.type!=gait::DS&&g.ttn==0&&g.dur>g.R)
    {
      int sw=g.type==gait::LEFT?1:0,st=1-sw; double o=outside(reach(st,r.re[st]),r.foot[sw][0](0)-r.foot[st][0](0),r.foot[sw][1](0)-r.foot[st][1](0));
      if((r.bits&2)&&o>1e-6) mc::fail("reach","the %s foot lands %g out of reach of the other one",sw?"right":"left",o);
      if(std::fabs(r.foot[sw][2](0))>1e-6) mc::fail("ground","the %s foot lands at height %g",sw?"right":"left",r.foot[sw][2](0));
    }
  }
  void rest()
  {
    r.velRef(0); wantStart=false; if(r.ga.move) r.move(false);
    int K=r.ga.ds+4*r.ga.step+(int)std::lround(5/r.tick); for(int i=0;i<K;++i) cycle();
    if(r.ga.type!=gait::DS) mc::fail("rest","still stepping %g s after a stop",K*r.tick);
    double v=std::hypot(r.com[0](1),r.com[1](1)),a=std::hypot(r.com[0](2),r.com[1](2)),o=outside(area(gait::DS),r.com[0](0),r.com[1](0)); mc::checked(3);
    if(v>0.01||a>0.05) mc::fail("rest","the centre of mass still moves (%g m/s, %g m/s2) %g s after a stop",v,a,K*r.tick);
    if(o>0) mc::fail("rest","the robot stops with its centre of mass %g outside of its feet",o);
  }
};
void loop()
{
  bool th=mc::ctx.thorough; static const Cfg cs[]={{16,1,6,8,0.125,0.75,0,8,3,0},{12,2,4,5,0.2,0.75,2,8,3,1},{16,1,8,10,0.1,0.875,0,8,3,2},{16,1,5,6,0.125,0.625,0,8,3,0},{12,4,4,6,0.2,0.75,1,8,3,1},{10,1,4,4,0.2,0.875,1,8,3,2}};
  int D= th?5:4;
  mc::cases("closed loop",4*mc::ipow(5,D),[&](uint64_t i){
    mc::Radix x(i); const Cfg& c=cs[x(4)]; Loop l(c); int per=c.R*c.step*3/4;
    for(int d=0;d<D;++d){ int e=x(5); if(e==1){ if(l.r.ga.move) l.r.move(false); else l.wantStart=true; } else if(e>1) l.r.velRef(e==2?4:e==3?5:0); if(d==0) l.wantStart=true; for(int k=0;k<per;++k) l.cycle(); }
    l.rest(); });
  // a stop at every cycle of a walk, with a new start at once, later or not at all
  mc::cases("a stop at every cycle",6*3*3*40,[&](uint64_t i){
    mc::Radix x(i); int ci=x(6); const Cfg& c=cs[ci]; int sp=x(3),again=x(3),k=x(40)*(th?1:c.R==1?1:c.R); if(!th&&c.R==1&&(k+sp)%2) return;
    Loop l(c); l.wantStart=true; l.r.velRef(sp==0?0:sp==1?4:5); int L=c.R*(c.ds+3*c.step); if(k>L) return;
    for(int j=0;j<k;++j) l.cycle();
    if(l.r.ga.move) l.r.move(false); else l.wantStart=!l.wantStart;
    if(again){ int w=again==1?1:c.R*c.step+c.R; for(int j=0;j<w;++j) l.cycle(); if(!l.r.ga.move) l.wantStart=true; for(int j=0;j<c.R*(c.ds+c.step);++j) l.cycle(); }
    l.rest(); });
  // a change of speed at every cycle
  mc::cases("a change of speed at every cycle",6*6*40,[&](uint64_t i){
    mc::Radix x(i); const Cfg& c=cs[x(6)]; int a=x(6),k=x(40)*(c.R==1?1:c.R); static const int pr[6][2]={{0,4},{4,0},{4,5},{5,4},{0,5},{5,0}}; if(!th&&k%2) return;
    Loop l(c); l.wantStart=true; l.r.velRef(pr[a][0]); if(k>c.R*(c.ds+3*c.step)) return;
    for(int j=0;j<k;++j) l.cycle();
    l.r.velRef(pr[a][1]); for(int j=0;j<2*c.R*c.step;++j) l.cycle();
    l.rest(); });
}
// another instance in each precision, busy with other parameters
struct Other { Run<double>* r=nullptr; Run<float>* f=nullptr; int k=0; template<class R> void act(R*& r){ if(!r||k%60==0){ delete r; r=new R(0); r->setup(Cfg{2,2,2,2,0.25,1,2,4,3,1}); r->move(true); } if(k%5==4) r->event((k*7)%R::NEV); r->solve(1,2,true); } void operator()(){ act(r); act(f); ++k; } ~Other(){ delete r; delete f; } };
void memory(Same same)
{
  bool th=mc::ctx.thorough; static const Cfg es[]={{3,1,2,1,0.125,0.75,1,3,3,0},{4,2,2,1,0.1,0.5,0,3,3,1},{2,1,3,2,0.25,1,2,4,3,2},{6,1,3,1,0.1,0.75,2,3,3,0}};
  const int E=Run<double>::NEV,K=Setup<double>::N,Q=th?3:2;
  mc::cases("humanoid walks",4*E,[&](uint64_t i){ const Cfg& c=es[i%4]; int a=(int)(i/4),L=c.R*(c.ds+3*c.step+1); for(int p=0;p<L;++p) for(int b=0;b<E;b+=th?1:5){ auto o=std::make_shared<Other>(); same([&]{ walk<double>(0,c,L,{{p,a},{p+2,b}},1,false); },[=]{ (*o)(); }); if((p+b)%4==0) same([&]{ walk<float>(0,c,L,{{p,a}},2,true); },[=]{ (*o)(); }); } });
  mc::cases("humanoid walks, one number changed",4*Run<double>::FINE,[&](uint64_t i){ const Cfg& c=es[i%4]; int L=c.R*(c.ds+2*c.step+1); for(int p=0;p<L;p+=th?1:3){ auto o=std::make_shared<Other>(); same([&]{ fineWalk<double>(0,c,L,{{p,(int)i/4}},1,p%2); },[=]{ (*o)(); }); if(p==1) same([&]{ fineWalk<float>(0,c,L,{{p,(int)i/4}},1,true); },[=]{ (*o)(); }); } });
  mc::cases("humanoid configuration calls",3*mc::ipow(K,Q),[&](uint64_t i){ auto o=std::make_shared<Other>(); same([&]{ setups<double>(0,(int)(i%3),i/3,Q); },[=]{ (*o)(); }); if(i%5==0) same([&]{ setups<float>(0,(int)(i%3),i/3,Q); },[=]{ (*o)(); }); });
}
}
#ifndef NO_HUM_CHECKS
MC_CHECK(H04){ hum::all(hum::COST); }
MC_CHECK(H05){ hum::all(hum::COP); }
MC_CHECK(H06){ hum::all(hum::STEPS); }
MC_CHECK(H07){ hum::all(hum::STATE); }
MC_CHECK(H08){ hum::all(hum::SIZES); }
MC_CHECK(E01){ hum::loop(); }
#endif
