// Z01-Z05: the wheeled-robot generator along every call history up to a depth.
#include "ref.h"
#include "zeb.h"
#include <mpc-walkgen/zebulon_walkgen.h>
using namespace MPCWalkgen;
using qp::V; using qp::M; using qp::Aff;

namespace zeb
{
template<class S> struct Tol;
template<> struct Tol<double>{ static double t(){return 1e-9;} };
template<> struct Tol<float>{ static double t(){return 3e-4;} };

// polygons: corner lists (counter-clockwise) and the point list handed over
struct Shape { std::vector<std::pair<double,double>> corners, extra; };
static const Shape& shape(int k)
{
  static const Shape s[]={
    {{{-0.1,-0.08},{0.1,-0.08},{0.1,0.08},{-0.1,0.08}},{}},
    {{{-0.1,-0.15},{0.25,-0.05},{-0.05,0.2}},{{0,0}}},
    {{{0.05,-0.2},{0.2,-0.1},{0.15,0.1},{-0.05,0.15},{-0.1,-0.05}},{{0.05,0},{0.05,-0.2}}},
    {{{-0.3,-0.1},{-0.1,-0.1},{-0.1,0.3},{-0.3,0.3}},{}},
    {{{-0.05,-0.15},{0.3,-0.05},{0,0.2}},{{0,0}}},   // the second one, moved
    {{{-0.1,-0.15},{0.25,-0.05},{-0.05+1/32768.0,0.2}},{{0,0}}},   // the second one, a coordinate changed a little
    {{{0.05,-0.2},{0.2,-0.1},{0.15,0.1},{-0.05,0.15},{-0.1,-0.05-1/32768.0}},{{0.05,0},{0.05,-0.2}}},
    {{{-0.25,-0.0625},{0,-0.15},{0.25,-0.0625},{0.25,0.0625},{0,0.15},{-0.25,0.0625}},{{0,0}}},   // symmetric, as the first one
    {{{-0.2,-0.125},{0.2,-0.125},{0.2,0.125},{-0.2,0.125}},{{0,0}}} };
  return s[k];
}
static const double W[][7]={ // vel pos cop com jerk tilt tiltVel
  {0,0,0,0,0,0,0},{1,0,0,0,0.01,0,0},{0,2,0,0,0.5,0,0},{0,0,3,0,0,0,0},{0,0,0,1.5,0,0,0},{0,0,0,0,0,10,0},{0,0,0,0,0,0,5},{0.5,0.25,1,2,0.01,3,0.125},{0,0,10,0,1e-3,0,0}};
static V pattern(int N,int k)
{
  V r(2*N); for(int i=0;i<2*N;++i) r(i)= k==0? 0.1-0.03*i : k==1? ((i%2)?-0.2:0.3)+0.0625*i : k==2? 0.0 : k==3? 0.5+0.25*i : -0.05*(i%3); return r;
}

struct Ref
{
  int N=1; double T=1; double g[3]={0,0,9.81}; double hc=1,hb=0,mc=1,mb=0;
  V b[2],c[2],roll,pitch,yaw; double dx=0,dy=0; int copS=-1,comS=-1; bool copHull=false,comHull=false;
  V vel,pos,cop,com; double w[7]={0,0,0,0,0,0,0}; bool k[4]={0,0,0,0}; double vl=1,al=1,jl=1; V X;
  Ref(){ b[0]=b[1]=c[0]=c[1]=roll=pitch=yaw=V::Zero(3); vel=pos=cop=com=V::Zero(2); X=V::Zero(4); }
};
// the affine previews of the reference model
struct Prev
{
  std::vector<Aff> cp,cv,ca,bp,bv,ba,cop,tilt,tiltv; bool tiltOk=true; // index axis*N+i
  Prev(const Ref& r,bool tilts)
  {
    int N=r.N,n=4*N;
    ref::Lin p=ref::preview(ref::POS,N,r.T,r.T),v=ref::preview(ref::VEL,N,r.T,r.T),a=ref::preview(ref::ACC,N,r.T,r.T);
    auto mk=[&](const ref::Lin& l,int i,const V& st,int off){ Aff e(n); e.a.segment(off,N)=l.u.row(i).transpose(); e.aa=e.a.cwiseAbs(); e.b=l.s.row(i).dot(st); e.bb=l.s.row(i).dot(st.cwiseAbs()); return e; };
    for(int ax=0;ax<2;++ax) for(int i=0;i<N;++i)
    {
      cp.push_back(mk(p,i,r.c[ax],ax*N)); cv.push_back(mk(v,i,r.c[ax],ax*N)); ca.push_back(mk(a,i,r.c[ax],ax*N));
      bp.push_back(mk(p,i,r.b[ax],(2+ax)*N)); bv.push_back(mk(v,i,r.b[ax],(2+ax)*N)); ba.push_back(mk(a,i,r.b[ax],(2+ax)*N));
    }
    for(int ax=0;ax<2;++ax) for(int i=0;i<N;++i)
    {
      int j=ax*N+i; double tot=r.mc+r.mb; Aff e(n);
      Aff u=ca[j]; u.plus(r.g[ax]); e.plus(r.mc/tot,cp[j]); e.plus(-r.mc/tot*r.hc/r.g[2],u);
      if(r.mb>0){ Aff w=ba[j]; w.plus(r.g[ax]); e.plus(r.mb/tot,bp[j]); e.plus(-r.mb/tot*r.hb/r.g[2],w); }
      e.plus(-1,bp[j]); cop.push_back(e);
    }
    if(!tilts) return;
    double g=9.81,A1=g*(r.mc*r.hc+r.mb*r.hb),A2=r.mc*g,A6=r.mc*r.hc*r.hc+r.mb*r.hb*r.hb,den=A1*r.T*r.T/2-A6;
    if(std::fabs(den)<0.02*(std::fabs(A1)*r.T*r.T/2+A6)||std::fabs(A1)<1e-3){ tiltOk=false; return; }
    for(int ax=0;ax<2;++ax)
    {
      const V& st= ax==0? r.roll: r.pitch; double d= ax==0? r.dx: r.dy;
      Aff th(n),om(n); th.plus(st(0)); om.plus(st(1));
      for(int i=0;i<N;++i)
      {
        int j=ax*N+i; Aff F(n); F.plus(-r.mb*g*d); F.plus(A2,cp[j]); F.plus(-A2,bp[j]); F.plus(-r.mc*r.hc,ca[j]); F.plus(-r.mb*r.hb,ba[j]);
        F.plus(-A1,th); F.plus(-A1*r.T,om); F.scale(1/den);          // the angular acceleration
        th.plus(r.T,om); th.plus(r.T*r.T/2,F); om.plus(r.T,F);
        tilt.push_back(th); tiltv.push_back(om);
        // unstable tilting dynamics: not judged once errors are amplified beyond the precision
        if(th.aa.maxCoeff()>1e4||om.aa.maxCoeff()>1e4) tiltOk=false;
      }
    }
  }
};

template<class S> struct Gen
{
  ZebulonWalkgen<S>* own; ZebulonWalkgen<S>& g; Ref r; int what;
  typedef typename Type<S>::VectorX VS; typedef typename Type<S>::Vector2 V2; typedef typename Type<S>::Vector3 V3;
  explicit Gen(int w):own(qp::make<ZebulonWalkgen<S>>()),g(*own),what(w){ qp::env.reset(); }
  Gen(int w,ZebulonWalkgen<S>& o):own(nullptr),g(o),what(w){}
  ~Gen(){ qp::unmake(own); }
  static VS c(const V& v){ return v.template cast<S>(); }
  static V q(const V& v){ return v.template cast<S>().template cast<double>(); }
  static ConvexPolygon<S> poly(int k){ typename Type<S>::vectorOfVector2 v; for(auto&p: shape(k).corners) v.push_back(V2((S)p.first,(S)p.second)); return ConvexPolygon<S>(v); }
  static typename Type<S>::vectorOfVector3 hull(int k){ typename Type<S>::vectorOfVector3 v; for(auto&p: shape(k).extra) v.push_back(V3((S)p.first,(S)p.second,(S)1)); for(auto&p: shape(k).corners) v.insert(v.begin()+v.size()/2,V3((S)p.first,(S)p.second,(S)0.5)); return v; }
  void nb(int N,int p){ mc::note("setNbSamples(%d), then all references, pattern %d",N,p); g.setNbSamples(N); r.N=N; r.X=V::Zero(4*N); velRef(p); posRef((p+1)%5); copRef((p+2)%5); comRef((p+3)%5); }
  void period(double T){ mc::note("setSamplingPeriod(%g)",T); g.setSamplingPeriod((S)T); r.T=(S)T; }
  void gravity(double x,double y,double z){ mc::note("setGravity(%g,%g,%g)",x,y,z); g.setGravity(V3((S)x,(S)y,(S)z)); r.g[0]=(S)x; r.g[1]=(S)y; r.g[2]=(S)z; }
  void copPoly(int k,bool h){ mc::note("setBaseCop%s(shape %d)",h?"Hull":"ConvexPolygon",k); if(h) g.setBaseCopHull(hull(k)); else g.setBaseCopConvexPolygon(poly(k)); r.copS=k; r.copHull=h; }
  void comPoly(int k,bool h){ mc::note("setBaseCom%s(shape %d)",h?"Hull":"ConvexPolygon",k); if(h) g.setBaseComHull(hull(k)); else g.setBaseComConvexPolygon(poly(k)); r.comS=k; r.comHull=h; }
  void bodyHeight(double h){ mc::note("setComBodyHeight(%g)",h); g.setComBodyHeight((S)h); r.hc=(S)h; }
  void baseHeight(double h){ mc::note("setComBaseHeight(%g)",h); g.setComBaseHeight((S)h); r.hb=(S)h; }
  void bodyMass(double m){ mc::note("setBodyMass(%g)",m); g.setBodyMass((S)m); r.mc=(S)m; }
  void baseMass(double m){ mc::note("setBaseMass(%g)",m); g.setBaseMass((S)m); r.mb=(S)m; }
  void velRef(int p){ r.vel=q(pattern(r.N,p)); mc::note("setVelRefInWorldFrame(pattern %d)",p); g.setVelRefInWorldFrame(c(r.vel)); }
  void posRef(int p){ r.pos=q(pattern(r.N,p)); mc::note("setPosRefInWorldFrame(pattern %d)",p); g.setPosRefInWorldFrame(c(r.pos)); }
  void copRef(int p){ r.cop=q(pattern(r.N,p)); mc::note("setCopRefInLocalFrame(pattern %d)",p); g.setCopRefInLocalFrame(c(r.cop)); }
  void comRef(int p){ r.com=q(pattern(r.N,p)); mc::note("setComRefInLocalFrame(pattern %d)",p); g.setComRefInLocalFrame(c(r.com)); }
  void worldRef(int p)
  {
    V cp=q(pattern(r.N,p)),ca=q(pattern(r.N,(p+1)%5)),bp=q(pattern(r.N,(p+2)%5)),ba=q(pattern(r.N,(p+3)%5));
    mc::note("setComAndCopRefInWorldFrame(patterns from %d)",p); g.setComAndCopRefInWorldFrame(c(cp),c(ca),c(bp),c(ba));
    r.com=cp-bp; r.cop=V(2*r.N);
    for(int i=0;i<2*r.N;++i){ double gx=r.g[i<r.N?0:1]; r.cop(i)=(r.mc*(cp(i)-r.hc/r.g[2]*(ca(i)+gx))+r.mb*(bp(i)-r.hb/r.g[2]*(ba(i)+gx)))/(r.mc+r.mb)-bp(i); }
  }
  void limit(int k,double l){ mc::note("setBase%sLimit(%g)",k==0?"Vel":k==1?"Acc":"Jerk",l); if(k==0){ g.setBaseVelLimit((S)l); r.vl=(S)l; } else if(k==1){ g.setBaseAccLimit((S)l); r.al=(S)l; } else { g.setBaseJerkLimit((S)l); r.jl=(S)l; } }
  static V v3(double a,double b,double d){ V v(3); v<<a,b,d; return q(v); }
  void baseX(const V& v){ mc::note("setBaseStateX(%g,%g,%g)",v(0),v(1),v(2)); g.setBaseStateX(c(v)); r.b[0]=v; }
  void baseY(const V& v){ mc::note("setBaseStateY(%g,%g,%g)",v(0),v(1),v(2)); g.setBaseStateY(c(v)); r.b[1]=v; }
  void comX(const V& v){ mc::note("setComStateX(%g,%g,%g)",v(0),v(1),v(2)); g.setComStateX(c(v)); r.c[0]=v; }
  void comY(const V& v){ mc::note("setComStateY(%g,%g,%g)",v(0),v(1),v(2)); g.setComStateY(c(v)); r.c[1]=v; }
  void roll(const V& v){ mc::note("setBaseStateRoll(%g,%g,%g)",v(0),v(1),v(2)); g.setBaseStateRoll(c(v)); r.roll=v; }
  void pitch(const V& v){ mc::note("setBaseStatePitch(%g,%g,%g)",v(0),v(1),v(2)); g.setBaseStatePitch(c(v)); r.pitch=v; }
  void yaw(const V& v){ mc::note("setBaseStateYaw(%g,%g,%g)",v(0),v(1),v(2)); g.setBaseStateYaw(c(v)); r.yaw=v; }
  void contact(int ax,double d){ mc::note("setTiltContactPointOnTheGroundInLocalFrame%c(%g)",'X'+ax,d); if(ax==0){ g.setTiltContactPointOnTheGroundInLocalFrameX((S)d); r.dx=(S)d; } else { g.setTiltContactPointOnTheGroundInLocalFrameY((S)d); r.dy=(S)d; } }
  void weights(const double* w)
  {
    mc::note("setWeightings(vel %g, pos %g, cop %g, com %g, jerk %g, tilt %g, tilt velocity %g)",w[0],w[1],w[2],w[3],w[4],w[5],w[6]);
    ZebulonWalkgenWeighting<S> k; k.velocityTracking=(S)w[0]; k.positionTracking=(S)w[1]; k.copCentering=(S)w[2]; k.comCentering=(S)w[3]; k.jerkMinimization=(S)w[4]; k.tiltMinimization=(S)w[5]; k.tiltVelMinimization=(S)w[6];
    g.setWeightings(k); for(int i=0;i<7;++i) r.w[i]=(S)w[i];
  }
  void config(int bits)
  {
    if((bits&1)&&r.copS<0) copPoly(0,false); if((bits&2)&&r.comS<0) comPoly(0,false);
    mc::note("setConfig(cop %d, com %d, base motion %d, tilt motion %d)",bits&1,bits>>1&1,bits>>2&1,bits>>3&1);
    ZebulonWalkgenConfig<S> k; k.withCopConstraints=bits&1; k.withComConstraints=bits&2; k.withBaseMotionConstraints=bits&4; k.withTiltMotionConstraints=bits&8; g.setConfig(k); for(int i=0;i<4;++i) r.k[i]=bits>>i&1;
  }
  // the final parameters given to another generator
  void giveAll(Gen& o) const
  {
    o.g.setNbSamples(r.N); o.g.setSamplingPeriod((S)r.T); o.g.setGravity(V3((S)r.g[0],(S)r.g[1],(S)r.g[2]));
    o.g.setComBodyHeight((S)r.hc); o.g.setComBaseHeight((S)r.hb); o.g.setBodyMass((S)r.mc); if(r.mb>0) o.g.setBaseMass((S)r.mb);
    if(r.copS>=0){ if(r.copHull) o.g.setBaseCopHull(hull(r.copS)); else o.g.setBaseCopConvexPolygon(poly(r.copS)); }
    if(r.comS>=0){ if(r.comHull) o.g.setBaseComHull(hull(r.comS)); else o.g.setBaseComConvexPolygon(poly(r.comS)); }
    o.g.setVelRefInWorldFrame(c(r.vel)); o.g.setPosRefInWorldFrame(c(r.pos)); o.g.setCopRefInLocalFrame(c(r.cop)); o.g.setComRefInLocalFrame(c(r.com));
    o.g.setBaseVelLimit((S)r.vl); o.g.setBaseAccLimit((S)r.al); o.g.setBaseJerkLimit((S)r.jl);
    o.g.setBaseStateX(c(r.b[0])); o.g.setBaseStateY(c(r.b[1])); o.g.setComStateX(c(r.c[0])); o.g.setComStateY(c(r.c[1]));
    o.g.setBaseStateRoll(c(r.roll)); o.g.setBaseStatePitch(c(r.pitch)); o.g.setBaseStateYaw(c(r.yaw));
    o.g.setTiltContactPointOnTheGroundInLocalFrameX((S)r.dx); o.g.setTiltContactPointOnTheGroundInLocalFrameY((S)r.dy);
    ZebulonWalkgenWeighting<S> k; k.velocityTracking=(S)r.w[0]; k.positionTracking=(S)r.w[1]; k.copCentering=(S)r.w[2]; k.comCentering=(S)r.w[3]; k.jerkMinimization=(S)r.w[4]; k.tiltMinimization=(S)r.w[5]; k.tiltVelMinimization=(S)r.w[6]; o.g.setWeightings(k);
    ZebulonWalkgenConfig<S> f; f.withCopConstraints=r.k[0]; f.withComConstraints=r.k[1]; f.withBaseMotionConstraints=r.k[2]; f.withTiltMotionConstraints=r.k[3]; o.g.setConfig(f);
  }
  int rows() const { return r.N*((r.k[0]?(int)shape(r.copS).corners.size():0)+(r.k[1]?(int)shape(r.comS).corners.size():0)+(r.k[2]?4:0)+(r.k[3]?2:0)); }

  void cost(const qp::Call& q) const
  {
    Prev p(r,r.w[5]>0||r.w[6]>0); if(!p.tiltOk) return;
    bool tl=r.w[5]>0||r.w[6]>0; qp::compareCost("cost",costOf(p,r.X),q,Tol<S>::t()*(tl?30:1));
  }
  qp::Cost costOf(const Prev& p,const V& X) const
  {
    int N=r.N; qp::Cost k(4*N,X);
    double f=(r.mc*r.hc+r.mb*r.hb)/(r.mc+r.mb); bool tl=r.w[5]>0||r.w[6]>0;
    for(int j=0;j<2*N;++j)
    {
      Aff e(4*N); e=p.bv[j]; e.plus(-r.vel(j)); addAff(k,r.w[0],e);
      e=p.bp[j]; e.plus(-r.pos(j)); addAff(k,r.w[1],e);
      e=p.cop[j]; e.plus(-r.cop(j)); addAff(k,r.w[2],e);
      e=p.cp[j]; e.plus(-1,p.bp[j]); e.plus(-r.com(j)); e.plus(-f*r.g[j<N?0:1]/r.g[2]); addAff(k,r.w[3],e);
      if(tl){ addAff(k,r.w[5],p.tilt[j]); addAff(k,r.w[6],p.tiltv[j]); }
    }
    for(int j=0;j<4*N;++j){ Aff e(4*N); e.a(j)=e.aa(j)=1; addAff(k,r.w[4],e); }
    return k;
  }
  void polygon(std::vector<qp::Half>& h,const std::vector<Aff>& e,int s,double sign,int tag) const
  {
    auto& v=shape(s).corners; int n=(int)v.size();
    for(int i=0;i<n;++i)
    {
      double ax=(S)v[i].first,ay=(S)v[i].second,bx=(S)v[(i+1)%n].first,by=(S)v[(i+1)%n].second;
      double nx=by-ay,ny=ax-bx,cc=nx*ax+ny*ay;                    // outward normal
      for(int j=0;j<r.N;++j) qp::addHalf(h,sign*(nx*e[j].a+ny*e[r.N+j].a),cc-sign*(nx*e[j].b+ny*e[r.N+j].b),tag);
    }
  }
  void motion(std::vector<qp::Half>& h,const Prev& p) const
  {
    int N=r.N;
    if(r.k[2]) for(int j=0;j<2*N;++j)
    {
      qp::addBetween(h,p.bv[j].a,-r.vl-p.bv[j].b,r.vl-p.bv[j].b,2); qp::addBetween(h,p.ba[j].a,-r.al-p.ba[j].b,r.al-p.ba[j].b,2);
      V e=V::Zero(4*N); e(2*N+j)=1; qp::addBetween(h,e,-r.jl,r.jl,2);
    }
    if(r.k[3]) for(int i=0;i<N;++i)
    {
      double s=std::sin(r.yaw(0)),co=std::cos(r.yaw(0));
      Aff e(4*N); e.plus(s,p.cv[i]); e.plus(-co,p.cv[N+i]); qp::addBetween(h,e.a,-e.b,-e.b,2);
      Aff f(4*N); f.plus(s,p.bv[i]); f.plus(-co,p.bv[N+i]); qp::addBetween(h,f.a,-f.b,-f.b,2);
    }
  }
  void sets(const qp::Call& q) const
  {
    Prev p(r,false); int N=r.N; double tol=Tol<S>::t()*100;
    std::vector<Aff> com; for(int j=0;j<2*N;++j){ Aff e=p.cp[j]; e.plus(-1,p.bp[j]); com.push_back(e); }
    std::vector<qp::Half> got=qp::halves(q,r.X), mot; motion(mot,p);
    if(what&MOTION)
    {
      std::vector<qp::Half> ref=mot; if(r.k[0]) polygon(ref,p.cop,r.copS,1,1); if(r.k[1]) polygon(ref,com,r.comS,1,1);
      qp::compareSets("motion",ref,got,tol,2,!r.k[0]&&!r.k[1]);
    }
    if(what&SUPPORT)
    {
      // the polygons, or (known finding) the polygons mirrored at the base
      auto fast=[&](const std::vector<qp::Half>& a,const std::vector<qp::Half>& b){ for(auto&h:a) if(!qp::hasMatch(b,h,tol)) return false; return true; };
      std::vector<qp::Half> refs[4]; bool mirrored[4]; int n=0;
      for(int m=0;m<4;++m)
      {
        if((m&1)&&!r.k[0]) continue; if((m&2)&&!r.k[1]) continue;
        refs[n]=mot; if(r.k[0]) polygon(refs[n],p.cop,r.copS,(m&1)?-1:1,1); if(r.k[1]) polygon(refs[n],com,r.comS,(m&2)?-1:1,1);
        mirrored[n]=m!=0; ++n;
      }
      int ok=-1;
      for(int i=0;i<n&&ok<0;++i) if(fast(refs[i],got)&&fast(got,refs[i])) ok=i;
      if(ok<0&&!(r.k[2]||r.k[3])) for(int i=0;i<n&&ok<0;++i) if(qp::sameSets(refs[i],got,tol)) ok=i;
      mc::checked(got.size());
      if(ok<0) // judge the support group only
      {
        int best=n-1; // the library's present orientation first
        if(n==1) best=0;
        qp::compareSets("support",refs[best],got,tol,1,!(r.k[2]||r.k[3]));
        ok=best;
      }
      if(mirrored[ok]&&!(what&FEW)) mc::report("mirrored-support","the centre of pressure / mass relative to the base is kept in the point-mirrored polygon (shapes %d, %d)",r.k[0]?r.copS:-1,r.k[1]?r.comS:-1);
    }
  }
  void fresh(const qp::Call& q)
  {
    qp::Call mine=q; Gen o(0); giveAll(o);
    o.r=r; o.g.solve((S)0.125); qp::Call f=qp::env.last(); mc::checked(4);
    if(f.nbVar!=mine.nbVar||f.nbCtr!=mine.nbCtr) mc::fail("fresh-size","%d variables and %d constraints, a fresh generator has %d and %d",mine.nbVar,mine.nbCtr,f.nbVar,f.nbCtr);
    if(mine.nbVar!=4*r.N||mine.nbCtr!=rows()) mc::fail("size","a solver for %d variables and %d constraints, expected %d and %d",mine.nbVar,mine.nbCtr,4*r.N,rows());
    double tol=Tol<S>::t()*10;
    auto fac=[](const M& a,const M& b){ if(b.size()==0) return 1.0; Eigen::Index i,j; double m=b.cwiseAbs().maxCoeff(&i,&j); return m>0&&a(i,j)/b(i,j)>0? a(i,j)/b(i,j): 1.0; };
    double fq=fac(mine.Q,f.Q),fa=fac(mine.A,f.A);
    M Q=mine.Q/fq,A=mine.A/fa; double mq=f.Q.cwiseAbs().maxCoeff(), ma=f.A.size()? f.A.cwiseAbs().maxCoeff(): 0;
    if(!((Q-f.Q).cwiseAbs().maxCoeff()<=tol*mq)) mc::fail("fresh-Q","the cost matrix differs from that of a fresh generator by %g (magnitude %g)",(Q-f.Q).cwiseAbs().maxCoeff(),mq);
    if(A.size()&&!((A-f.A).cwiseAbs().maxCoeff()<=tol*ma)) mc::fail("fresh-A","the constraint matrix differs from that of a fresh generator by %g (magnitude %g)",(A-f.A).cwiseAbs().maxCoeff(),ma);
    double xm=r.X.cwiseAbs().maxCoeff()+1; V p=mine.p/fq-Q*r.X; double sp=f.p.cwiseAbs().maxCoeff()+mq*xm*4*r.N;
    if(!((p-f.p).cwiseAbs().maxCoeff()<=tol*sp)) mc::fail("fresh-p","the cost gradient differs from that of a fresh generator by %g (magnitude %g)",(p-f.p).cwiseAbs().maxCoeff(),sp);
    if(A.size())
    {
      V lo=mine.bl/fa+A*r.X,hi=mine.bu/fa+A*r.X; double sb=0; for(int i=0;i<lo.size();++i){ if(std::fabs(f.bl(i))<1e10) sb=std::max(sb,std::fabs(f.bl(i))); if(std::fabs(f.bu(i))<1e10) sb=std::max(sb,std::fabs(f.bu(i))); }
      sb+=ma*xm*4*r.N;
      for(int i=0;i<lo.size();++i) for(int k=0;k<2;++k){ double a=k?hi(i):lo(i),b=k?f.bu(i):f.bl(i); if(std::fabs(a)>1e9&&std::fabs(b)>1e9&&(a>0)==(b>0)) continue; if(!(std::fabs(a-b)<=tol*sb)) mc::fail("fresh-bound","%s bound of row %d: %.9g, a fresh generator has %.9g",k?"upper":"lower",i,a,b); }
    }
    for(int i=0;i<4*r.N;++i) for(int k=0;k<2;++k){ double a=(k?mine.xu(i):mine.xl(i))+(k?1:1)*r.X(i),b=k?f.xu(i):f.xl(i); if(std::fabs(a)>1e9&&std::fabs(b)>1e9&&(a>0)==(b>0)) continue; if(!(std::fabs(a-b)<=tol*(10+xm))) mc::fail("fresh-box","%s bound of variable %d: %.9g, a fresh generator has %.9g",k?"upper":"lower",i,a,b); }
  }

  void solve(double fb,int ans,bool ok,bool final=false)
  {
    mc::note("solve(%g), solver %s %d, %s",fb,ans<0?"proposes nothing":"answers pattern",ans,ok?"success":"failure");
    qp::between(); qp::env.calls.clear(); V given=V::Zero(4*r.N);
    if(ans>0) for(int i=0;i<4*r.N;++i) given(i)= ans==1? 0.5-0.0625*i : ans==2? -0.75+0.125*i*((i%2)?-1:1) : 0.25*((i*5)%7-3);
    qp::env.answer=[&](const qp::Call&,V& s){ if(ans<0){ s.resize(0); return ok=false; } s=given; return ok; };
    bool ret=g.solve((S)fb); qp::env.answer=nullptr; mc::transition(); mc::traceDone(); qp::saw(g.getComStateX()); qp::saw(g.getComStateY()); qp::saw(g.getBaseStateX()); qp::saw(g.getBaseStateY()); qp::saw1(ret);
    qp::Call q=qp::env.last();
    if(what&COST) cost(q);
    if(what&(SUPPORT|MOTION)) sets(q);
    if((what&FRESH)&&final) fresh(q);
    if((what&WARM)&&q.warm&&q.wasInit&&!q.sameAsInit) mc::fail("warm","a warm start was asked for a problem with other matrices");
    if((what&WARM)&&q.warm&&q.wasInit&&!q.keptInPlace) mc::fail("kept","a warm start was asked although the matrices that the solver was initialised with are no longer where they were");
    r.X=this->q(r.X+given);
    double tol=Tol<S>::t();
    V e[4]={r.c[0],r.c[1],r.b[0],r.b[1]}; for(int i=0;i<4;++i) ref::advance(e[i],r.X(i*r.N),(S)fb);
    V a[4]={g.getComStateX().template cast<double>(),g.getComStateY().template cast<double>(),g.getBaseStateX().template cast<double>(),g.getBaseStateY().template cast<double>()};
    if(what&STATE)
    {
      mc::checked(13); static const char* nm[]={"CoM x","CoM y","base x","base y"};
      if(ret!=ok) mc::fail("return","solve returned %d but the solver %s",(int)ret,ok?"succeeded":"failed");
      for(int k=0;k<4;++k){ if(a[k].size()!=3) mc::fail("state","%s state has size %d",nm[k],(int)a[k].size()); for(int i=0;i<3;++i) if(!(std::fabs(a[k](i)-e[k](i))<=tol*(10+e[k].cwiseAbs().maxCoeff()))) mc::fail("state","published %s state (%g,%g,%g), expected (%g,%g,%g)",nm[k],a[k](0),a[k](1),a[k](2),e[k](0),e[k](1),e[k](2)); }
    }
    for(int i=0;i<2;++i){ r.c[i]=a[i]; r.b[i]=a[2+i]; }
    mc::Hash hh; hh(r.N).d(r.T).vec(r.c[0]).vec(r.c[1]).vec(r.b[0]).vec(r.b[1]).vec(r.X).vec(r.vel).vec(r.pos).vec(r.cop).vec(r.com).d(r.hc).d(r.hb).d(r.mc).d(r.mb).d(r.g[0])(r.copS)(r.comS).vec(r.roll).vec(r.yaw).d(r.dx).d(r.dy); for(double x:r.w) hh.d(x); for(bool b:r.k) hh(b); mc::state(hh.h);
    mc::Hash ho; ho.vec(q.p).vec(q.bl); mc::outcome(ho.h);
  }
  static const int NOPS=50;
  void op(int o)
  {
    qp::between();
    switch(o)
    {
      case 0: nb(1,0); break; case 1: nb(2,1); break; case 2: nb(3,3); break;
      case 3: period(0.5); break; case 4: period(0.2); break;
      case 5: gravity(0.981,-0.5,9.75); break; case 6: gravity(0,0,9.81); break;
      case 7: copPoly(0,false); break; case 8: copPoly(1,false); break; case 9: copPoly(2,true); break;
      case 10: comPoly(3,false); break; case 11: comPoly(2,false); break; case 12: comPoly(1,true); break;
      case 13: bodyHeight(0.625); break; case 14: baseHeight(0.125); break; case 15: baseHeight(0.25); break;
      case 16: bodyMass(2); break; case 17: bodyMass(12); break; case 18: baseMass(8); break; case 19: baseMass(0.5); break;
      case 20: velRef(3); break; case 21: posRef(1); break; case 22: copRef(4); break; case 23: comRef(1); break; case 24: worldRef(0); break; case 25: worldRef(3); break;
      case 26: limit(0,0.25); break; case 27: limit(1,0.5); break; case 28: limit(2,2); break; case 29: limit(2,0); break;
      case 30: baseX(v3(0.25,-0.5,0.125)); break; case 31: baseY(v3(-0.125,0.25,-1)); break; case 32: comX(v3(0.1875,0.5,-0.25)); break; case 33: comY(v3(-0.25,0,0.5)); break;
      case 34: roll(v3(0.0625,-0.125,5)); break; case 35: pitch(v3(-0.03125,0.25,-3)); break; case 36: yaw(v3(0.75,1,1)); break;
      case 37: contact(0,0.125); break; case 38: contact(1,-0.1875); break;
      case 39: weights(W[0]); break; case 40: weights(W[1]); break; case 41: weights(W[3]); break; case 42: weights(W[5]); break; case 43: weights(W[7]); break;
      case 44: config(0); break; case 45: config(1+4); break; case 46: config(2+8); break;
      case 47: solve(0.0625,1,true); break; case 48: solve(r.T,2,false); break; case 49: solve(r.T/2,-1,false); break;
    }
  }
  // calls that change one number only, the rest stays as it is
  static const int FINE=132;
  void fine(int o)
  {
    qp::between(); static const double w3[]={0,0.5,2},l3[]={0,0.375,2},s3[]={-0.25,0,0.5};
    if(o<21){ double x[7]; for(int i=0;i<7;++i) x[i]=r.w[i]; x[o/3]=w3[o%3]; weights(x); return; } o-=21;
    if(o<9){ limit(o/3,l3[o%3]); return; } o-=9;
    if(o<5){ copPoly(o,o==2); return; } o-=5;
    if(o<5){ comPoly(o,o==4); return; } o-=5;
    if(o<6){ static const double gg[3][2]={{0,0.5},{0,-0.75},{9.81,8}}; double x[3]={r.g[0],r.g[1],r.g[2]}; x[o/2]=gg[o/2][o%2]; gravity(x[0],x[1],x[2]); return; } o-=6;
    if(o<4){ if(o<2) bodyHeight(o?0.75:1.125); else baseHeight(o==2?0.0625:0.3125); return; } o-=4;
    if(o<5){ if(o<2) bodyMass(o?4:11); else baseMass(o==2?7:o==3?0.125:3); return; } o-=5;
    if(o<24)
    { // one entry of one reference
      int e=o/6; V* v= e==0?&r.vel: e==1?&r.pos: e==2?&r.cop: &r.com; int i=o%6/2; i= i==0? 0: i==1? r.N: 2*r.N-1; (*v)(i)= o%2? 0: (double)(S)0.4375;
      mc::note("%s reference: entry %d becomes %g",e==0?"velocity":e==1?"position":e==2?"CoP":"CoM",i,(*v)(i));
      if(e==0) g.setVelRefInWorldFrame(c(*v)); else if(e==1) g.setPosRefInWorldFrame(c(*v)); else if(e==2) g.setCopRefInLocalFrame(c(*v)); else g.setComRefInLocalFrame(c(*v)); return;
    } o-=24;
    if(o<28)
    { // one component of one state
      int e=o/4,k= o%4; V v= e==0? r.b[0]: e==1? r.b[1]: e==2? r.c[0]: e==3? r.c[1]: e==4? r.roll: e==5? r.pitch: r.yaw; if(k<3) v(k)=s3[(e+k)%3]; else v.setZero();
      if(e==0) baseX(v); else if(e==1) baseY(v); else if(e==2) comX(v); else if(e==3) comY(v); else if(e==4) roll(v); else if(e==5) pitch(v); else yaw(v); return;
    } o-=28;
    if(o<4){ contact(o/2,o%2?0:0.25-0.375*(o/2)); return; } o-=4;
    if(o<4){ int bits=0; for(int i=0;i<4;++i) bits|= r.k[i]<<i; config(bits^(1<<o)); return; } o-=4;
    if(o<4){ nb(o+1,o); return; } o-=4;
    static const double T[]={0.25,0.5,0.125}; if(o<3){ period(T[o]); return; } o-=3;
    if(o<4){ worldRef(o); return; } o-=4;
    switch(o){ case 0: solve(r.T,1,true); break; case 1: solve(r.T/2,2,false); break; case 2: solve(0.05,3,true); break; case 3: solve(1.5*r.T,0,true); break; case 4: giveAll(*this); r.X.setZero(); mc::note("every parameter given again"); break; case 5: solve(0.75*r.T,-1,false); break; }
  }
  // start: 0 new generator; 1 everything configured; 2 running
  void begin(int start)
  {
    if(start==0) return;
    nb(2,1); period(0.25); copPoly(1,false); comPoly(2,false); bodyHeight(0.875); baseHeight(0.1875); baseMass(6); bodyMass(10);
    config(start==1? 1+2 : 15); weights(W[7]); limit(0,0.75); limit(1,1.5); limit(2,3);
    baseX(v3(0.0625,0.125,0)); comY(v3(0.03125,-0.0625,0.125)); yaw(v3(0.5,0,0));
    if(start==2){ worldRef(1); gravity(-0.5,0.25,9.5); solve(0.0625,3,true); }
  }
};
template<class S> static void history(int what,int start,uint64_t code,int depth)
{
  Gen<S> g(what); g.begin(start);
  mc::Radix x(code); for(int i=0;i<depth;++i) g.op(x(Gen<S>::NOPS));
  g.solve(0.125,1,true,true);
}
template<class S> static void fineHistory(int what,int start,std::vector<int> ops,bool between)
{
  Gen<S> g(what); g.begin(start);
  for(size_t i=0;i<ops.size();++i){ g.fine(ops[i]); if(between&&i+1<ops.size()) g.solve(0.0625,2,true); }
  g.solve(0.125,1,true,true);
}
// one or a few numbers at a time, with and without a solve between
static void fines(int what)
{
  const int n=Gen<double>::FINE; bool th=mc::ctx.thorough;
  for(int start=0;start<3;++start)
    mc::cases(start==0?"one number at a time, new generator":start==1?"one number at a time, configured generator":"one number at a time, running generator",n,[&](uint64_t i){
      for(int k=0;k<n;++k) for(int b=0;b<2;++b){ mc::note("#%d",k); fineHistory<double>(what,start,{(int)i,k},b); mc::clearNotes(); if((i+k+b)%13==0){ fineHistory<float>(what,start,{(int)i,k},b); mc::clearNotes(); }
        if(th&&start==2&&b==(int)(i+k)%2) for(int l=0;l<n;++l){ fineHistory<double>(what,start,{(int)i,k,l},b); mc::clearNotes(); } }
      if(i==17){ fineHistory<double>(what,start,{17,34},true); mc::sample(); } });
}
// one configuration
template<class S> static void grid(int what,uint64_t i)
{
  mc::Radix x(i); static const int Ns[]={1,3,6,12}; static const double Ts[]={0.1,0.2,0.4}; static const double gs[][3]={{0,0,9.81},{0.5,-0.25,9.5},{-1,2,9.81}};
  Gen<S> g(what); int N=Ns[x(4)],ord=x(2); double T=Ts[x(3)]; int wi=x(9),cfg=x(16),ms=x(4),gi=x(3),sh=x(3);
  auto A=[&]{ g.nb(N,wi%5); g.period(T); }; auto B=[&]{ g.bodyHeight(0.5+0.25*gi); g.baseHeight(0.0625+0.0625*sh); if(ms) g.baseMass(ms==1?8:ms==2?0.25:2); g.bodyMass(ms==3?1:12); g.gravity(gs[gi][0],gs[gi][1],gs[gi][2]); };
  auto C=[&]{ g.copPoly(sh,sh==2); g.comPoly((sh+1)%4,false); g.config(cfg); g.weights(W[wi]); g.limit(0,0.5); g.limit(1,1); g.limit(2,4); };
  if(ord){ A();B();C(); } else { C();B();A(); }
  g.baseX(g.v3(0.25,-0.125,0.0625)); g.baseY(g.v3(-0.5,0.125,0)); g.comX(g.v3(0.28125,0,0.25)); g.comY(g.v3(-0.46875,0.0625,-0.125)); g.yaw(g.v3(0.25*sh,0,0)); g.roll(g.v3(0.03125,0.0625,0)); g.pitch(g.v3(-0.0625,0,0)); g.contact(0,0.125); g.contact(1,-0.0625);
  if(wi%2) g.worldRef(ms);
  g.solve(T/4,3,true); g.solve(2.5*T,2,true); g.solve(T,1,i%8!=5,true);   // a failed solve prints its whole problem, which is slow
}
// magnitudes: weights, states, references, limits, masses, heights and periods far apart, and a robot far from the origin
static const uint64_t MAGN=7*4*3*3*3*4*4;
template<class S> static void magnitudes(int what,uint64_t i)
{
  mc::Radix x(i); static const double m[]={1e-3,1,100},Ts[]={0.01,0.2,1.5},ws[]={1e-6,1e3}; static const int Ns[]={1,2,7};
  Gen<S> g(what); int e=x(7),k=x(4); double ms=m[x(3)]; int b=x(3); double T=Ts[b],ml=m[x(3)]; int ph=x(4),N=Ns[i%3]; int cfg=x(4); static const int cf[]={1,2,4,13};
  double far= ph==1? 128: 0, mass= ph==2? 1e-2: ph==3? 1e2: 1; double w[7]={0,0,0,0,0,0,0}; if(k>1) for(int j=0;j<7;++j) w[j]=W[7][j]; w[e]=ws[k%2];
  g.nb(N,0); g.period(T); g.bodyMass(10*mass); g.baseMass(ph==2?50:4*mass); g.bodyHeight(ph==3?2.5:0.75); g.baseHeight(ph==2?0.03125:0.25); g.weights(w); g.config(cf[cfg]); g.limit(0,ml); g.limit(1,2*ml); g.limit(2,0.5*ml);
  g.r.vel*=ms; g.r.vel=g.q(g.r.vel); g.g.setVelRefInWorldFrame(g.c(g.r.vel)); g.r.pos=g.q((g.r.pos*ms).array()+far); g.g.setPosRefInWorldFrame(g.c(g.r.pos)); g.r.cop=g.q(g.r.cop*ms); g.g.setCopRefInLocalFrame(g.c(g.r.cop)); g.r.com=g.q(g.r.com*ms); g.g.setComRefInLocalFrame(g.c(g.r.com));
  g.baseX(g.v3(far+0.25*ms,-0.5*ms,ms)); g.baseY(g.v3(-far,ms,0.125*ms)); g.comX(g.v3(far+0.125*ms,ms,-ms)); g.comY(g.v3(-far-0.25*ms,0.25*ms,0.5*ms)); g.roll(g.v3(1e-3*ms,1e-2*ms,0)); g.yaw(g.v3(cfg==3?2.5:0,0,0));
  g.solve(T,1,true); g.solve(T/2,3,true,true);
}
// one number at a time by less than the library's tolerance
static const int NUDGES=49;
template<class S> static void nudges(int what,uint64_t i)
{
  Gen<S> g(what); mc::Radix x(i); static const double d[]={3.0517578125e-05,-3.0517578125e-05}; int st=1+x(2); bool between=x(2); int o[2]={(int)x(NUDGES),(int)x(NUDGES)}; double z=d[(o[0]+o[1])%2]; g.begin(st); if(st==1){ g.config(15); g.solve(0.0625,2,true); } Ref& r=g.r;
  for(int k=0;k<2;++k)
  {
    int e=o[k]; mc::note("one number changes by %g",z); qp::between();
    if(e<7){ double w[7]; for(int j=0;j<7;++j) w[j]=r.w[j]; w[e]+=std::fabs(z); g.weights(w); }
    else if((e-=7)<3){ double l[3]={r.vl,r.al,r.jl}; g.limit(e,l[e]+z); }
    else if((e-=3)<3){ double v[3]={r.g[0],r.g[1],r.g[2]}; v[e]+=z; g.gravity(v[0],v[1],v[2]); }
    else if((e-=3)<2){ if(e) g.baseHeight(r.hb+z); else g.bodyHeight(r.hc+z); }
    else if((e-=2)<2){ if(e) g.baseMass(r.mb+z); else g.bodyMass(r.mc+z); }
    else if((e-=2)<2){ if(e) g.comPoly(6,false); else g.copPoly(5,false); }
    else if((e-=2)<2) g.contact(e,(e?r.dy:r.dx)+z);
    else if((e-=2)<8){ V* v= e/2==0?&r.vel: e/2==1?&r.pos: e/2==2?&r.cop: &r.com; (*v)(e%2? 2*r.N-1: 0)+=z; *v=g.q(*v); if(e/2==0) g.g.setVelRefInWorldFrame(g.c(*v)); else if(e/2==1) g.g.setPosRefInWorldFrame(g.c(*v)); else if(e/2==2) g.g.setCopRefInLocalFrame(g.c(*v)); else g.g.setComRefInLocalFrame(g.c(*v)); }
    else if((e-=8)<19){ int n=e/3; V v= n==0? r.b[0]: n==1? r.b[1]: n==2? r.c[0]: n==3? r.c[1]: n==4? r.roll: n==5? r.pitch: r.yaw; v(n==6?0:e%3)+=z; v=g.q(v); if(n==0) g.baseX(v); else if(n==1) g.baseY(v); else if(n==2) g.comX(v); else if(n==3) g.comY(v); else if(n==4) g.roll(v); else if(n==5) g.pitch(v); else g.yaw(v); }
    else g.period(r.T+z);
    if(k||between) g.solve(0.125,1+k,true,k==1);
  }
}
// long runs: a repeated pattern of calls
template<class S> static void marathon(int what,uint64_t i,int L)
{
  Gen<S> g(what); mc::Radix x(i); int a=x(Gen<S>::FINE),every=1+x(3)*5; g.begin(2);
  for(int k=0;k<L;++k){ if(k%every==every-1) g.fine((a+k)%Gen<S>::FINE); g.solve(0.0625*(1+k%3),k%14==5?-1:k%4,k%7!=5,k%29==28); if(k%12==11){ g.baseX(g.v3(0.0625*(k%3),0.125,-0.25)); g.baseY(g.v3(0,-0.125,0)); g.comX(g.v3(0.125,0.25,0)); g.comY(g.v3(-0.0625,0,0.125)); } }
}
void all(int what)
{
  mc::cases("magnitudes",MAGN,[&](uint64_t i){ if((what&FEW)&&i%7) return; magnitudes<double>(what,i); });
  mc::cases("nudges",4*(uint64_t)NUDGES*NUDGES,[&](uint64_t i){ if((what&FEW)&&i%3) return; nudges<double>(what,i); if(i%7==0){ mc::clearNotes(); nudges<float>(what,i); } });
  mc::cases("marathons",132*3,[&](uint64_t i){ if(!mc::ctx.thorough&&(i/132+i)%3) return; marathon<double>(what,i,mc::ctx.thorough?600:200); if(i%18==0){ mc::clearNotes(); marathon<float>(what,i,100); } });
  if(what&FEW)
  {
    mc::cases("configurations",4*2*3*9*16*4*3*3,[&](uint64_t i){ if(i%(mc::ctx.thorough?3:11)==0){ grid<double>(what,i); if(i%55==0) grid<float>(what,i); } });
    if(!mc::ctx.thorough) fines(what);
    return;
  }
  fines(what);
  const int n=Gen<double>::NOPS; uint64_t per=n;
  for(int start=0;start<3;++start)
  {
    int d= mc::ctx.thorough&&start==2?3:2;
    mc::cases(start==0?"histories from a new generator":start==1?"histories from a configured generator":"histories from a running generator",mc::ipow(n,d),[&](uint64_t i){
      for(uint64_t k=0;k<per;++k){ mc::note("#%llu",(unsigned long long)k); history<double>(what,start,i+k*mc::ipow(n,d),d+1); mc::clearNotes(); }
      if(i==17){ history<double>(what,start,i+7*mc::ipow(n,d),d+1); mc::sample(); } });
  }
  mc::cases("single precision",n*n,[&](uint64_t i){ history<float>(what,0,i,2); mc::clearNotes(); history<float>(what,2,i,2); });
  mc::cases("configurations",4*2*3*9*16*4*3*3,[&](uint64_t i){ mc::Radix x(i); int N=x(4); if(N>=2&&!mc::ctx.thorough&&(i/24)%3!=0) return; grid<double>(what,i); if(N<2&&i%11==0) grid<float>(what,i); });
}
static bool th(){ return mc::ctx.thorough; }
// ---- E02: the loop closed with an exact solver ----
struct Loop
{
  Gen<double> g; double jerk[4]={0,0,0,0}; bool over=false, feasible=true; explicit Loop():g(0){}
  std::vector<qp::Half> limits(const Prev& p,double slack) const
  { // the polygons of this exploration are symmetric (Z02: mirrored polygons are a known finding)
    const Ref& r=g.r; std::vector<Aff> com; for(int j=0;j<2*r.N;++j){ Aff e=p.cp[j]; e.plus(-1,p.bp[j]); com.push_back(e); }
    std::vector<qp::Half> h; g.motion(h,p); if(r.k[0]) g.polygon(h,p.cop,r.copS,1,1); if(r.k[1]) g.polygon(h,com,r.comS,1,1);
    for(auto& x:h) x.c+=slack; return h;
  }
  void cycle(double fb)
  {
    if(over) return; Ref& r=g.r; mc::note("solve(%g) with an exact solver",fb);
    bool ok=true; qp::env.calls.clear(); qp::env.answer=[&](const qp::Call& given,V& s){ qp::Call q=qp::asKept(given); qp::Res o=qp::solveQP(q.Q,q.p,qp::halves(q,V::Zero(q.p.size()))); if(!o.feasible) s.resize(0); else s=o.x; return ok=o.feasible; };
    bool ret=g.g.solve(fb); qp::env.answer=nullptr; mc::transition();
    Prev p(r,r.w[5]>0||r.w[6]>0); if(!p.tiltOk){ over=true; return; }
    qp::Cost k=g.costOf(p,V::Zero(4*r.N)); qp::Res e=qp::solveQP(k.Q,k.p,limits(p,0)); mc::checked(16);
    if(ok!=e.feasible)
    {
      auto possible=[&](const std::vector<qp::Half>& hs){ return qp::solveQP(M::Identity(4*r.N,4*r.N),V::Zero(4*r.N),hs).feasible; };
      bool mine=possible(qp::halves(qp::asKept(qp::env.last()),V::Zero(4*r.N)));   // the plan is judged relative to the previous one: only its existence matters here
      if(mine&&!possible(limits(p,1e-6))) mc::fail("feasible","a plan is accepted although no plan respects the limits");
      if(!mine&&possible(limits(p,-1e-6))) mc::fail("infeasible","no plan is accepted although there is one within the limits");
      over=true; return;
    }
    if(ret!=ok) mc::fail("return","solve returned %d",(int)ret);
    feasible=ok; V st[4]={r.c[0],r.c[1],r.b[0],r.b[1]}; double sc=1+(ok?e.x.cwiseAbs().maxCoeff():0);
    V now[4]={g.g.getComStateX(),g.g.getComStateY(),g.g.getBaseStateX(),g.g.getBaseStateY()};
    static const char* nm[]={"centre of mass, x","centre of mass, y","base, x","base, y"};
    for(int a=0;a<4;++a)
    {
      if(ok) jerk[a]=e.x(a*r.N);
      V want=st[a]; ref::advance(want,jerk[a],fb);
      for(int i=0;i<3;++i) if(!(std::fabs(now[a](i)-want(i))<=1e-5*sc)) mc::fail("optimal","%s: the state is (%g,%g,%g), the best plan leads to (%g,%g,%g)",nm[a],now[a](0),now[a](1),now[a](2),want(0),want(1),want(2));
      jerk[a]=(now[a](2)-st[a](2))/fb;
    }
    r.c[0]=now[0]; r.c[1]=now[1]; r.b[0]=now[2]; r.b[1]=now[3];
    if(ok&&fb==r.T)
    { // a sample is reached
      double t=1e-5*sc,m=r.mc+r.mb,cop[2],com[2]; for(int a=0;a<2;++a){ com[a]=r.c[a](0)-r.b[a](0); cop[a]=(r.mc*(r.c[a](0)-r.hc/r.g[2]*(r.c[a](2)+r.g[a]))+r.mb*(r.b[a](0)-r.hb/r.g[2]*(r.b[a](2)+r.g[a])))/m-r.b[a](0); }
      auto inside=[&](int s,const double* x){ auto& v=shape(s).corners; int n=(int)v.size(); for(int i=0;i<n;++i){ double dx=v[(i+1)%n].first-v[i].first,dy=v[(i+1)%n].second-v[i].second; if((dy*(x[0]-v[i].first)-dx*(x[1]-v[i].second))/std::hypot(dx,dy)>t) return false; } return true; };
      if(r.k[0]&&!inside(r.copS,cop)) mc::fail("balance","the centre of pressure (%g,%g) is outside of its polygon",cop[0],cop[1]);
      if(r.k[1]&&!inside(r.comS,com)) mc::fail("com","the centre of mass (%g,%g) is outside of its polygon",com[0],com[1]);
      if(r.k[2]) for(int a=0;a<2;++a) if(std::fabs(r.b[a](1))>r.vl+t||std::fabs(r.b[a](2))>r.al+t||std::fabs(jerk[2+a])>r.jl+t) mc::fail("limit","base velocity %g, acceleration %g, jerk %g exceed the limits %g, %g, %g",r.b[a](1),r.b[a](2),jerk[2+a],r.vl,r.al,r.jl);
    }
    for(auto& x:now) if(!(x.cwiseAbs().maxCoeff()<100)) over=true;   // without a terminal constraint the motion may diverge
    mc::Hash h; for(auto& x:now) h.vec(x); for(double w:r.w) h.d(w); h(r.N).d(r.T)(r.copS)(r.comS)(r.k[0])(r.k[1])(r.k[2]); mc::state(h.h); mc::Hash o; for(double x:jerk) o.d(x); mc::outcome(o.h);
  }
  static void put(double* w,double vel,double pos,double cop,double com,double j,double tilt,double tv){ double x[7]={vel,pos,cop,com,j,tilt,tv}; std::copy(x,x+7,w); }
  static const int NEV=25;
  void event(int e)
  {
    Ref& r=g.r; double w[7];
    switch(e)
    {
      case 0: break; case 1: g.posRef(2); break; case 2: g.posRef(3); break; case 3: g.velRef(1); break; case 4: g.velRef(2); break;
      case 5: g.copRef(r.cop.cwiseAbs().maxCoeff()>0?2:4); break; case 6: g.comRef(r.com.cwiseAbs().maxCoeff()>0?2:4); break;
      case 7: g.limit(0,r.vl>0.75?0.5:1); break; case 8: g.limit(1,r.al>1?0.75:3); break; case 9: g.limit(2,r.jl>10?5:40); break;
      case 10: put(w,r.w[0]>0?0:1,2,r.w[2]>1?0.5:5,2,r.w[4]>0.005?0.001:0.01,0,0); g.weights(w); break; case 11: put(w,1,0.5,1,1,0.01,r.w[5]>0?0:2,0.5); g.weights(w); break;
      case 12: g.config((r.k[0]?0:1)|(r.k[1]?2:0)|(r.k[2]?0:4)); break; case 13: g.copPoly(r.copS==0?7:r.copS==7?8:0,r.copS!=7); break; case 14: g.comPoly(r.comS==0?8:r.comS==8?7:0,r.comS!=0); break;
      case 15: { V v=r.b[0]; v(1)+=0.125; g.baseX(v); v=r.c[1]; v(0)+=0.03125; g.comY(v); break; }
      case 16: g.period(r.T<0.2?0.25:0.125); break; case 17: g.baseMass(r.mb>9?5:10); break; case 18: g.bodyHeight(r.hc>0.6?0.5:0.75); break; case 19: g.bodyMass(r.mc>9?6:12); break;
      case 20: if(r.g[0]==0) g.gravity(0.25,-0.125,9.75); else g.gravity(0,0,9.81); break; case 21: g.contact(0,r.dx>0?0:0.125); break; case 22: g.baseHeight(r.hb>0.2?0.125:0.25); break;
      case 23: { V v=r.b[1]; v(1)-=0.125; g.baseY(v); v=r.roll; v(0)+=0.03125; g.roll(v); break; } case 24: { int N=r.N==3?4:3; g.nb(N,2); refs(2); for(double& j:jerk) j=0; break; }
    }
  }
  void refs(int p){ g.posRef(p); g.velRef(2); g.copRef(2); g.comRef(2); }
  void begin(int c)
  {
    static const double T[]={0.25,0.125,1.25}; double w[7]; g.nb(c==1?4:3,2); refs(2); g.period(T[c]); g.bodyMass(12); g.baseMass(10); g.bodyHeight(0.75); g.baseHeight(0.25); g.copPoly(c==1?7:0,false); g.comPoly(c==2?0:7,true);
    put(w,0.5,2,1,1,0.001,c==2?1:0,0); g.weights(w); g.limit(0,1); g.limit(1,3); g.limit(2,40); g.config(c==0?5:c==1?7:2); g.baseX(g.v3(0,0,0)); g.baseY(g.v3(0,0,0)); g.comX(g.v3(0,0,0)); g.comY(g.v3(0,0,0)); g.posRef(4);
  }
  void settle()
  {
    if(over) return; Ref& r=g.r; double w[7]; int N=8; g.nb(N,2); g.config(7); for(double& j:jerk) j=0; refs(2); if(r.g[0]!=0) g.gravity(0,0,9.81); g.period(0.2); g.limit(0,1); g.limit(1,4); g.limit(2,60); put(w,0.5,2,5,5,1e-3,0,0); g.weights(w);
    r.pos.head(N).setConstant(0.5); r.pos.tail(N).setConstant(-0.25); mc::note("position reference (0.5,-0.25), all others 0"); g.g.setPosRefInWorldFrame(r.pos);
    auto far=[&]{ double f=0; for(int a=0;a<2;++a){ double t=a?-0.25:0.5; f+=std::fabs(r.b[a](0)-t)+2*std::fabs(r.b[a](1))+2*std::fabs(r.b[a](2))+std::fabs(r.c[a](0)-t)+2*std::fabs(r.c[a](1))+2*std::fabs(r.c[a](2)); } return f; };
    if(far()>20) return;
    int total=0,left=60+(int)(8*far()); for(;left>0;--left){ cycle(0.2); if(over||++total>400) return; if(!feasible) left=61+(int)(8*std::min(1e3,far())); }
    mc::checked(4);
    for(int a=0;a<2;++a){ double t=a?-0.25:0.5; if(!(std::fabs(r.b[a](0)-t)<=5e-3&&std::fabs(r.b[a](1))<=5e-3&&std::fabs(r.c[a](0)-t)<=5e-3&&std::fabs(r.c[a](1))<=5e-3)) mc::fail("settle","after %d cycles with constant references the base is at %g (velocity %g) and the centre of mass at %g (velocity %g) instead of %g",total,r.b[a](0),r.b[a](1),r.c[a](0),r.c[a](1),t); }
  }
};
void loop()
{
  int D= th()?4:3; const int E=Loop::NEV;
  mc::cases("wheeled robot, every sequence of events",3*mc::ipow(E,D-1),[&](uint64_t i){ for(int k=0;k<E;++k){ mc::Radix x(i); int c=x(3); Loop l; l.begin(c); l.cycle(l.g.r.T); for(int d=0;d<D;++d){ l.event(d<D-1?x(E):k); for(int j=0;j<1+(d+c)%3;++j) l.cycle(j==1?l.g.r.T/2:j==2?1.5*l.g.r.T:l.g.r.T); } mc::traceDone(); if((i+k)%97==0) l.settle(); if(i==5&&k==5) mc::sample(); mc::clearNotes(); } });
  mc::cases("wheeled robot, two events at any distance",3*E*E,[&](uint64_t i){ for(int k=0;k<(th()?12:3);++k){ mc::Radix x(i); int c=x(3); Loop l; l.begin(c); for(int j=0;j<3;++j) l.cycle(l.g.r.T); l.event(x(E)); for(int j=0;j<k*2;++j) l.cycle(c==1?l.g.r.T/4:l.g.r.T); l.event(x(E)); for(int j=0;j<8;++j) l.cycle(l.g.r.T/(1+j%3)); mc::traceDone(); if(i%4==k) l.settle(); mc::clearNotes(); } });
}
// another instance in each precision, busy with other parameters
struct Other { Gen<double>* g=nullptr; Gen<float>* f=nullptr; int k=0; template<class G> void act(G*& g){ if(!g||k%40==0){ delete g; g=new G(0); g->begin(1); } g->op((k*11)%G::NOPS); g->solve(0.375,1,true); } void operator()(){ act(g); act(f); ++k; } ~Other(){ delete g; delete f; } };
void memory(Same same)
{
  int d= mc::ctx.thorough?3:2; const int n=Gen<double>::NOPS;
  mc::cases("wheeled robot generator",3*mc::ipow(n,d-1),[&](uint64_t i){ for(int k=0;k<n;++k){ auto o=std::make_shared<Other>(); uint64_t c=i/3+(uint64_t)k*mc::ipow(n,d-1); same([&]{ history<double>(0,(int)(i%3),c,d); },[=]{ (*o)(); }); if((i+k)%8==0) same([&]{ history<float>(0,(int)(i%3),c,d); },[=]{ (*o)(); }); } });
  const int F=Gen<double>::FINE;
  mc::cases("wheeled robot generator, one number at a time",3*F,[&](uint64_t i){ for(int k=0;k<F;k+=th()?1:3){ auto o=std::make_shared<Other>(); same([&]{ fineHistory<double>(0,(int)(i%3),{(int)i/3,(int)((k+i/3)%F)},k%2); },[=]{ (*o)(); }); } });
}
}
#ifndef NO_ZEB_CHECKS
MC_CHECK(Z01){ zeb::all(zeb::COST); }
MC_CHECK(Z02){ zeb::all(zeb::SUPPORT); }
MC_CHECK(Z03){ zeb::all(zeb::MOTION); }
MC_CHECK(Z04){ zeb::all(zeb::FRESH); }
MC_CHECK(Z05){ zeb::all(zeb::STATE); }
#endif
