// C01, C02: convex polygons, exhaustive over point lists on small grids.
#include "mc.h"
#include <mpc-walkgen/convexpolygon.h>
using namespace MPCWalkgen;
typedef std::pair<int,int> IP; // (x,y) integer point

static long cross(IP o,IP a,IP b){ return (long)(a.first-o.first)*(b.second-o.second)-(long)(a.second-o.second)*(b.first-o.first); }

// reference hull: extreme points, counter-clockwise, from the lowest then leftmost
static std::vector<IP> refHull(std::vector<IP> p)
{
  std::sort(p.begin(),p.end(),[](IP a,IP b){ return a.second!=b.second? a.second<b.second: a.first<b.first; });
  p.erase(std::unique(p.begin(),p.end()),p.end());
  int n=p.size(); if(n<3) return p;
  std::vector<IP> h;
  for(int pass=0;pass<2;++pass)
  {
    size_t base=h.size();
    for(int i=0;i<n;++i)
    {
      IP q= pass? p[n-1-i]: p[i];
      while(h.size()>=base+2 && cross(h[h.size()-2],h.back(),q)<=0) h.pop_back();
      h.push_back(q);
    }
    h.pop_back();
  }
  // collinear sets: the chain yields the two end points
  return h;
}

struct Frame { double sx,sy,ox,oy; const char* name; };
static const Frame frames[]={ {1,1,0,0,"unit"},{0.5,0.25,-3,2,"dyadic"},{0.1,0.07,0.3,-0.2,"decimal"},{-0.02,0.015,0.01,0.5,"mirrored"},{1/512.,1/1024.,0.25,-0.125,"small"},{64,32,-512,1024,"large"},{1,2,8192,-4096,"far"} };
static const int nFrames=7;

template<class S> static typename Type<S>::vectorOfVector2 place(const std::vector<IP>& p,const Frame& f)
{
  typename Type<S>::vectorOfVector2 v;
  for(IP q: p) v.push_back(typename Type<S>::Vector2((S)(f.ox+f.sx*q.first),(S)(f.oy+f.sy*q.second)));
  return v;
}
static std::string str(const std::vector<IP>& p){ std::string s; for(IP q:p) s+="("+std::to_string(q.first)+","+std::to_string(q.second)+")"; return s; }

template<class S> static void hullCase(std::vector<IP> pts,const Frame& f,const char* prec)
{
  typename Type<S>::vectorOfVector2 in=place<S>(pts,f);
  // the reference works on the order-isomorphic integer points (mirroring applied)
  std::vector<IP> m; for(IP q:pts) m.push_back(f.sx<0? IP(-q.first,q.second): q);
  std::vector<IP> ref=refHull(m);
  ConvexPolygon<S> poly(in);
  const typename Type<S>::vectorOfVector2& out=poly.getVertices();
  typename Type<S>::vectorOfVector2 ex=ConvexPolygon<S>::extractVertices(in);
  mc::transition(); mc::checked(2);
  if(poly.getNbVertices()!=(int)ref.size()) mc::fail("hull-count","%s %s: %d vertices, the hull has %d",prec,f.name,poly.getNbVertices(),(int)ref.size());
  if(ex.size()!=ref.size()) mc::fail("hull-extract","%s %s: extractVertices returns %d vertices instead of %d",prec,f.name,(int)ex.size(),(int)ref.size());
  for(size_t i=0;i<ref.size();++i)
  {
    IP q=f.sx<0? IP(-ref[i].first,ref[i].second): ref[i];
    typename Type<S>::Vector2 w((S)(f.ox+f.sx*q.first),(S)(f.oy+f.sy*q.second));
    if(out[i](0)!=w(0)||out[i](1)!=w(1)) mc::fail("hull-vertex","%s %s: vertex %d is (%g,%g), expected (%g,%g)",prec,f.name,(int)i,(double)out[i](0),(double)out[i](1),(double)w(0),(double)w(1));
    if(ex[i](0)!=w(0)||ex[i](1)!=w(1)) mc::fail("hull-extract","%s %s: extracted vertex %d differs",prec,f.name,(int)i);
  }
  mc::Hash h; h(ref.size()); for(IP q:ref) h((uint64_t)(q.first*100+q.second)); mc::outcome(h.h);
}

static std::vector<IP> grid(int w,int h){ std::vector<IP> g; for(int y=0;y<h;++y) for(int x=0;x<w;++x) g.push_back(IP(x,y)); return g; }

// all lists of length len over the grid, blocks of lists per case
static void lists(const char* fam,int w,int h,int len,bool allFrames)
{
  std::vector<IP> g=grid(w,h);
  uint64_t n=mc::ipow(g.size(),len), block= g.size()*g.size();
  if(n<block) block=g.size();
  mc::cases(fam,(n+block-1)/block,[&](uint64_t c){
    for(uint64_t i=c*block;i<std::min(n,(c+1)*block);++i)
    {
      mc::Radix r(i); std::vector<IP> p; mc::Hash hs; hs(w*10+h);
      for(int k=0;k<len;++k){ int j=r(g.size()); p.push_back(g[j]); hs(j); }
      mc::state(hs.h);
      if(i==c*block||true) { if(i==c*block) mc::note("lists %s .. (%d lists)",str(p).c_str(),(int)block); }
      try {
        for(int f=0;f<(allFrames?nFrames:1);++f){ int ff= allFrames? f: (int)(i%nFrames); hullCase<double>(p,frames[ff],"double"); if(allFrames||i%2==0) hullCase<float>(p,frames[ff],"float"); }
      } catch(mc::Fail&e){ e.msg=str(p)+" "+e.msg; throw; }
      mc::traceDone();
    }
    if(c==7) mc::sample();
  });
}

// lists whose points are off the grid by less than the tolerance (same hull up to the
// offset) or by about the tolerance (hull up to the tolerance)
static const int OFF[5][2]={{0,0},{1,0},{-1,0},{0,1},{0,-1}};
template<class S> static void offCase(const std::vector<IP>& pts,const std::vector<int>& off,const Frame& f,double d,const char* prec)
{
  typename Type<S>::vectorOfVector2 in; std::vector<IP> m;
  for(size_t k=0;k<pts.size();++k){ in.push_back(typename Type<S>::Vector2((S)(f.ox+f.sx*pts[k].first+d*OFF[off[k]][0]),(S)(f.oy+f.sy*pts[k].second+d*OFF[off[k]][1]))); m.push_back(f.sx<0?IP(-pts[k].first,pts[k].second):pts[k]); }
  typename Type<S>::vectorOfVector2 v=ConvexPolygon<S>(in).getVertices(); int n=v.size(); mc::transition(); mc::checked(2);
  double ulp=sizeof(S)==4?1e-6:1e-12;
  if(d<=1e-5*std::min(std::fabs(f.sx),f.sy))
  {
    std::vector<IP> ref=refHull(m);
    if(n!=(int)ref.size()) mc::fail("hull-count","%s %s offsets of %g: %d vertices, the hull has %d",prec,f.name,d,n,(int)ref.size());
    for(int i=0;i<n;++i){ double x=f.ox+std::fabs(f.sx)*ref[i].first,y=f.oy+f.sy*ref[i].second; if(!(std::fabs(v[i](0)-x)<=d+ulp&&std::fabs(v[i](1)-y)<=d+ulp)) mc::fail("hull-vertex","%s %s offsets of %g: vertex %d is (%g,%g), expected (%g,%g)",prec,f.name,d,i,(double)v[i](0),(double)v[i](1),x,y); }
    return;
  }
  double D=0; for(auto&a:in) for(auto&b:in) D=std::max(D,(double)(a-b).norm());
  double tol=2e-4+5e-4*D, low=1e9; for(auto&a:in) low=std::min(low,(double)a(1));
  if(n<1) mc::fail("hull-count","%s %s offsets of %g: no vertex",prec,f.name,d);
  if(!(v[0](1)<=low+tol)) mc::fail("hull-first","%s %s offsets of %g: the first vertex is not the lowest",prec,f.name,d);
  for(int i=0;i<n;++i)
  {
    typename Type<S>::Vector2 a=v[i],b=v[(i+1)%n]; double l=(b-a).norm();
    bool isIn=false; for(auto&q:in) isIn=isIn||q==a; if(!isIn) mc::fail("hull-vertex","%s %s offsets of %g: vertex %d is none of the points",prec,f.name,d,i);
    if(n>1&&l<0.99e-4) mc::fail("hull-close","%s %s offsets of %g: vertices %d and %d are %g apart",prec,f.name,d,i,(i+1)%n,l);
    for(auto&q:in)
    {
      double out= n==1? (q-a).norm(): -(((double)b(0)-a(0))*((double)q(1)-a(1))-((double)b(1)-a(1))*((double)q(0)-a(0)))/l;
      if(out>tol) mc::fail("hull-outside","%s %s offsets of %g: (%g,%g) is outside by %g",prec,f.name,d,(double)q(0),(double)q(1),out);
    }
    for(int j=0;j<i;++j) if(v[j]==a) mc::fail("hull-twice","%s %s offsets of %g: vertices %d and %d are the same",prec,f.name,d,j,i);
  }
}
static void offLists(const char* fam,int w,int h,int len)
{
  std::vector<IP> g=grid(w,h); int q=g.size()*5; uint64_t n=mc::ipow(q,len), block=(uint64_t)q*q; if(n<=block) block=q;
  static const Frame of[]={{1,1,0,0,"unit"},{0.5,0.25,-3,2,"dyadic"},{-0.02,0.015,0.01,0.5,"mirrored"},{0.1,0.07,0.3,-0.2,"decimal"}};
  static const double ds[]={1e-17,1e-13,1e-9,1e-6,4e-5,9e-5,1.3e-4,3e-4};
  mc::cases(fam,n/block,[&](uint64_t c){
    for(uint64_t i=c*block;i<(c+1)*block;++i)
    {
      mc::Radix r(i); std::vector<IP> p; std::vector<int> o; bool any=false;
      for(int k=0;k<len;++k){ int j=r(q); p.push_back(g[j/5]); o.push_back(j%5); any=any||j%5; }
      if(!any) continue; mc::Hash hs; hs(4242)(w)(h)(len)(i); mc::state(hs.h);
      try { for(int k=0;k<8;++k){ double d=ds[k]; const Frame& f=of[(i+k)%4]; if(d>1e-9&&len>4&&(i+k)%2&&!mc::ctx.thorough) continue; offCase<double>(p,o,f,d,"double"); if(d>=1e-9&&(i+k)%3==0) offCase<float>(p,o,f,d,"float"); } }
      catch(mc::Fail&e){ std::string s; for(int k=0;k<len;++k) s+="("+std::to_string(p[k].first)+","+std::to_string(p[k].second)+(o[k]==0?"":o[k]==1?"+x":o[k]==2?"-x":o[k]==3?"+y":"-y")+")"; e.msg=s+" "+e.msg; throw; }
      mc::traceDone();
    }
  });
}

// lattice polygons with many sides: the edges are vectors without a common factor, by angle
static std::vector<IP> rays(int m,bool half)
{
  std::vector<IP> e; for(int x=-m;x<=m;++x) for(int y=-m;y<=m;++y){ int a=std::abs(x),b=std::abs(y); while(b){ int t=a%b; a=b; b=t; } if(a!=1) continue; if(half&&(y<0||(y==0&&x<0))) continue; e.push_back(IP(x,y)); }
  std::sort(e.begin(),e.end(),[](IP a,IP b){ return std::atan2(a.second,a.first)<std::atan2(b.second,b.first); }); return e;
}
static std::vector<IP> ring(const std::vector<IP>& e){ std::vector<IP> p; IP q(0,0); for(IP d:e){ p.push_back(q); q.first+=d.first; q.second+=d.second; } return p; }
static std::vector<IP> zonogon(uint64_t mask,int m){ std::vector<IP> h=rays(m,true),e; for(size_t i=0;i<h.size();++i) if(mask>>i&1) e.push_back(h[i]); size_t n=e.size(); for(size_t i=0;i<n;++i) e.push_back(IP(-e[i].first,-e[i].second)); return ring(e); }
template<class F> static void manySides(F f)
{
  bool th=mc::ctx.thorough;
  mc::cases("subsets of a polygon with 16 sides",256,[=](uint64_t c){ std::vector<IP> v=ring(rays(2,false)); for(uint64_t m=c*256;m<c*256+256;++m){ std::vector<IP> p; for(int i=0;i<16;++i) if(m>>i&1) p.push_back(v[i]); if(p.size()>2) f(p,m,th||m%2); } });
  mc::cases("polygons with up to 32 sides",256,[=](uint64_t c){ for(uint64_t m=c;m<65536;m+=th?256:2048) { std::vector<IP> p=zonogon(m,3); if(p.size()>2) f(p,m,true); } });
  if(th) mc::cases("polygons with up to 48 sides",256,[=](uint64_t c){ for(uint64_t m=c;m<(1u<<24);m+=256*61) { std::vector<IP> p=zonogon(m,4); if(p.size()>2) f(p,m,true); } });
}
MC_CHECK(C01)
{
  manySides([](std::vector<IP> p,uint64_t m,bool){
    mc::Hash h; h(161)(p.size())(m); mc::state(h.h); size_t n=p.size(); IP mid((p[0].first+p[n/2].first)/2,(p[0].second+p[n/2].second)/2);
    for(int k=0;k<3;++k)
    {
      std::vector<IP> q; int st= k==0? 1: k==1? (int)n-1: 7; if(n%7==0&&k==2) st=5; if(n%35==0&&k==2) st=3;
      for(size_t i=0;i<n;++i){ q.push_back(p[(i*st+m)%n]); if(k==2&&i%5==2) q.push_back(mid); if(k==1&&i%4==1) q.push_back(p[m%n]); }
      try { hullCase<double>(q,frames[(m+k)%nFrames],"double"); if((m+k)%3==0) hullCase<float>(q,frames[(m/3+k)%nFrames],"float"); } catch(mc::Fail&e){ e.msg=str(q)+" "+e.msg; throw; }
      mc::traceDone();
    } });
  offLists("off the grid 2x2",2,2,2); offLists("off the grid 3x2",3,2,3); offLists("off the grid 3x3",3,3,3); offLists("off the grid 3x2",3,2,4);
  if(mc::ctx.thorough){ offLists("off the grid 3x3",3,3,4); offLists("off the grid 3x2",3,2,5); }
  // empty list and very short lists one by one (each its own case: a crash names the list)
  mc::oneCase("empty",[]{ mc::note("empty list"); std::vector<IP> e; for(auto&f:frames){ hullCase<double>(e,f,"double"); hullCase<float>(e,f,"float"); } mc::traceDone(); });
  for(int len=1;len<=2;++len) lists("short",3,3,len,true);
  lists("3x3",3,3,3,true);
  lists("3x3",3,3,4,true);
  lists("3x3",3,3,5,mc::ctx.thorough);
  lists("4x2",4,2,5,false);
  lists("5x1 (collinear)",5,1,5,true);
  lists("1x5 (collinear)",1,5,5,true);
  lists("4x4",4,4,3,true);
  lists("4x4",4,4,4,false);
  // sets of up to 12 points: ring orders, interior points; all subsets of a 4x4 grid in two orders
  mc::cases("subsets of 4x4",256,[&](uint64_t c){
    std::vector<IP> g=grid(4,4);
    for(uint64_t m=c*256;m<(c+1)*256;++m)
    {
      std::vector<IP> p; for(int k=0;k<16;++k) if(m>>k&1) p.push_back(g[k]);
      mc::Hash h; h(999)(m); mc::state(h.h);
      if(m==c*256) mc::note("subset mask %llu..",(unsigned long long)m);
      try { hullCase<double>(p,frames[m%nFrames],"double"); std::reverse(p.begin(),p.end()); hullCase<double>(p,frames[(m+1)%nFrames],"double"); hullCase<float>(p,frames[(m+2)%nFrames],"float"); }
      catch(mc::Fail&e){ e.msg=str(p)+" "+e.msg; throw; }
      mc::traceDone();
    }
  });
  // hulls of two feet: every relative placement of a coarse lattice (units of 1 cm), all foot shape pairs
  static const std::vector<std::vector<IP> > feet={
    {{7,5},{-3,5},{-3,-5},{7,-5}}, {{7,3},{5,5},{-3,5},{-3,-4},{6,-5}}, {{6,0},{0,4},{-4,0},{0,-4}}, {{0,0},{8,0},{0,6}} };
  const int R= mc::ctx.thorough? 31: 15;
  mc::cases("two feet",16*R,[&](uint64_t c){
    mc::Radix r(c); const std::vector<IP>&A=feet[r(4)], &B=feet[r(4)]; int dx=(r(R)-R/2)*(mc::ctx.thorough?1:2);
    static const Frame ff[]={ {0.01,0.01,0,0,"cm"},{0.01,0.01,-0.13,0.07,"cm shifted"},{0.01,0.01,0.05,-0.095,"cm shifted"} };
    for(int k=0;k<R;++k)
    {
      int dy=(k-R/2)*(mc::ctx.thorough?1:2);
      std::vector<IP> p=A; for(IP q:B) p.push_back(IP(q.first+dx,q.second+dy));
      mc::Hash h; h(c)(k)(77); mc::state(h.h);
      if(k==0) mc::note("foot shapes %d,%d second foot at (%d,*) cm",(int)(c%4),(int)(c/4%4),dx);
      try { for(int f=0;f<3;++f){ hullCase<double>(p,ff[f],"double"); hullCase<float>(p,ff[f],"float"); } }
      catch(mc::Fail&e){ e.msg=str(p)+" "+e.msg; throw; }
      mc::traceDone();
    }
    if(c==100) mc::sample();
  });
  if(mc::ctx.thorough)
  {
    lists("3x3",3,3,6,false);
    lists("4x4",4,4,5,false);
    lists("5x5",5,5,4,false);
    lists("6x6",6,6,3,true);
    lists("7x1",7,1,6,false);
    lists("2x3",2,3,7,false);
  }
}

// ---- C02 -------------------------------------------------------------------
template<class S> static void memberCase(const std::vector<IP>& pts,const Frame& f,const char* prec)
{
  std::vector<IP> ref=refHull(pts);           // integer hull (unmirrored orientation is enough for membership)
  if(ref.size()<3) return;
  ConvexPolygon<S> poly(place<S>(pts,f));
  bool exact = f.sx!=0.1 && f.sx!=-0.02;
  int ng=poly.getNbGeneralConstraints();
  if(poly.getGeneralConstraintsMatrixCoefsForX().size()!=ng||poly.getGeneralConstraintsMatrixCoefsForY().size()!=ng) mc::fail("coef-size","%s: coefficient vectors have different sizes",prec);
  const int D=3; // probes on a grid three times finer, one cell around
  int lox=99,hix=-99,loy=99,hiy=-99; for(IP q:ref){ lox=std::min(lox,q.first); hix=std::max(hix,q.first); loy=std::min(loy,q.second); hiy=std::max(hiy,q.second); }
  const int DD= exact? 2: D;
  uint64_t oc=0;
  for(int py=(loy-1)*DD;py<=(hiy+1)*DD;++py) for(int px=(lox-1)*DD;px<=(hix+1)*DD;++px)
  {
    int side=1; // 1 inside, 0 border, -1 outside
    for(size_t i=0;i<ref.size();++i)
    {
      IP a=ref[i],b=ref[(i+1)%ref.size()];
      long c=(long)(b.first-a.first)*(py-a.second*DD)-(long)(b.second-a.second)*(px-a.first*DD);
      if(c<0){ side=-1; break; } if(c==0) side=0;
    }
    if(side==0 && !exact) continue;
    S x=(S)(f.ox+f.sx*px/DD), y=(S)(f.oy+f.sy*py/DD);
    bool sat= x<=poly.getXSupBound() && x>=poly.getXInfBound() && y<=poly.getYSupBound() && y>=poly.getYInfBound();
    for(int k=0;k<ng;++k) sat = sat && poly.getGeneralConstraintsMatrixCoefsForX()(k)*x+poly.getGeneralConstraintsMatrixCoefsForY()(k)*y+poly.getGeneralConstraintsConstantPart()(k)<=0;
    mc::checked(); oc=oc*3+side+1;
    if(sat!=(side>=0)) mc::fail("membership","%s %s: point (%g,%g) is %s the polygon but its inequalities say %s",prec,f.name,(double)x,(double)y,side>0?"inside":side==0?"on the border of":"outside",sat?"inside":"outside");
  }
  mc::transition(); mc::outcome(oc);
}
// points off the grid by less than the tolerance: membership up to the tolerance
template<class S> static void memberOff(const std::vector<IP>& pts,const std::vector<int>& off,const Frame& f,double d,const char* prec)
{
  typename Type<S>::vectorOfVector2 in;
  for(size_t k=0;k<pts.size();++k) in.push_back(typename Type<S>::Vector2((S)(f.ox+f.sx*pts[k].first+d*OFF[off[k]][0]),(S)(f.oy+f.sy*pts[k].second+d*OFF[off[k]][1])));
  ConvexPolygon<S> poly(in); std::vector<IP> ref=refHull(pts); int n=ref.size(); mc::transition();
  int ng=poly.getNbGeneralConstraints(); uint64_t oc=0;
  int lox=99,hix=-99,loy=99,hiy=-99; for(IP q:ref){ lox=std::min(lox,q.first); hix=std::max(hix,q.first); loy=std::min(loy,q.second); hiy=std::max(hiy,q.second); }
  double D=std::hypot(f.sx*(hix-lox),f.sy*(hiy-loy)), tol= d<=1e-5*std::min(std::fabs(f.sx),f.sy)? 3*d+(sizeof(S)==4?2e-6:1e-9)*(1+D): 2e-4+5e-4*D;
  for(int py=(loy-1)*3;py<=(hiy+1)*3;++py) for(int px=(lox-1)*3;px<=(hix+1)*3;++px)
  {
    double x=f.ox+f.sx*px/3,y=f.oy+f.sy*py/3, out=-1e9;
    for(int i=0;i<n;++i)
    {
      double ax=f.ox+f.sx*ref[i].first,ay=f.oy+f.sy*ref[i].second,bx=f.ox+f.sx*ref[(i+1)%n].first,by=f.oy+f.sy*ref[(i+1)%n].second;
      out=std::max(out,(f.sx<0?-1:1)*((by-ay)*(x-ax)-(bx-ax)*(y-ay))/std::hypot(bx-ax,by-ay));
    }
    // outside by less than the tolerance or close to a corner, where the distance is larger than that to the sides
    if(std::fabs(out)<=tol) continue;
    bool sat= x<=poly.getXSupBound() && x>=poly.getXInfBound() && y<=poly.getYSupBound() && y>=poly.getYInfBound();
    for(int k=0;k<ng;++k) sat = sat && poly.getGeneralConstraintsMatrixCoefsForX()(k)*x+poly.getGeneralConstraintsMatrixCoefsForY()(k)*y+poly.getGeneralConstraintsConstantPart()(k)<=0;
    mc::checked(); oc=oc*2+sat;
    if(sat!=(out<0)) mc::fail("membership-off","%s %s offsets of %g: point (%g,%g) is %g %s the polygon but its inequalities say %s",prec,f.name,d,x,y,std::fabs(out),out<0?"inside":"outside",sat?"inside":"outside");
  }
  mc::outcome(oc);
}
static void memberOffLists(const char* fam,int w,int h,int len)
{
  std::vector<IP> g=grid(w,h); uint64_t n=mc::ipow(g.size(),len),o5=mc::ipow(5,len);
  static const Frame of[]={{1,1,0,0,"unit"},{1,0.004,-3,2,"flat"},{0.003,0.5,0.3,-0.2,"narrow"},{-0.02,0.015,0.01,0.5,"mirrored"},{0.1,0.07,0.3,-0.2,"decimal"}};
  static const double ds[]={0,1e-17,1e-13,1e-9,1e-6,4e-5,9e-5};
  std::vector<std::vector<IP>> sets; for(uint64_t i=0;i<n;++i){ mc::Radix r(i); std::vector<IP> p; int last=-1; bool inc=true; for(int k=0;k<len;++k){ int j=r(g.size()); if(j<=last) inc=false; last=j; p.push_back(g[j]); } if(inc&&refHull(p).size()>=3) sets.push_back(p); }
  mc::cases(fam,sets.size(),[&,w,h,len](uint64_t c){
    const auto& p=sets[c]; mc::note("%s",str(p).c_str());
    for(uint64_t k=0;k<o5;++k){ mc::Radix r(k); std::vector<int> o; for(int j=0;j<len;++j) o.push_back(r(5));
      for(int f=0;f<5;++f) for(int d=0;d<7;++d){ if(d==0&&k) continue; if(len>3&&!mc::ctx.thorough&&(k+f+d)%3) continue; memberOff<double>(p,o,of[f],ds[d],"double"); if(d==0||(d>2&&(k+d)%2)) memberOff<float>(p,o,of[f],ds[d],"float"); }
      mc::Hash hs; hs(7777)(w)(h)(len)(c)(k); mc::state(hs.h); mc::traceDone(); } });
}
static void memberLists(const char* fam,int w,int h,int len)
{
  std::vector<IP> g=grid(w,h);
  uint64_t n=mc::ipow(g.size(),len), block=g.size()*g.size();
  mc::cases(fam,(n+block-1)/block,[&](uint64_t c){
    for(uint64_t i=c*block;i<std::min(n,(c+1)*block);++i)
    {
      mc::Radix r(i); std::vector<IP> p; bool inc=true; int last=-1;
      for(int k=0;k<len;++k){ int j=r(g.size()); if(j<=last) inc=false; last=j; p.push_back(g[j]); }
      if(!inc) continue;                       // sets, not lists: the hull order is C01's business
      if(refHull(p).size()<3) continue;
      mc::Hash hs; hs(w*10+h)(len)(i); mc::state(hs.h);
      mc::note("%s",str(p).c_str());
      for(int f=0;f<nFrames;++f){ memberCase<double>(p,frames[f],"double"); memberCase<float>(p,frames[f],"float"); }
      mc::traceDone();
    }
    if(c==7) mc::sample();
  });
}
MC_CHECK(C02)
{
  manySides([](std::vector<IP> p,uint64_t m,bool take){ if(!take) return; mc::Hash h; h(162)(p.size())(m); mc::state(h.h); try { memberCase<double>(p,frames[m/3%nFrames],"double"); if(m%3==0) memberCase<float>(p,frames[m/2%nFrames],"float"); } catch(mc::Fail&e){ e.msg=str(p)+" "+e.msg; throw; } mc::traceDone(); });
  mc::oneCase("empty polygon",[]{
    mc::note("default polygon"); ConvexPolygon<double> p; ConvexPolygon<float> q;
    mc::state(1); mc::traceDone(); mc::transition();
    if(p.getNbVertices()!=0||p.getNbGeneralConstraints()!=0||p.getXSupBound()<1e9||p.getXInfBound()>-1e9||p.getYSupBound()<1e9||p.getYInfBound()>-1e9) mc::fail("empty","an empty polygon restricts points");
    if(q.getNbVertices()!=0||q.getNbGeneralConstraints()!=0||q.getXSupBound()<1e9f||q.getXInfBound()>-1e9f||q.getYSupBound()<1e9f||q.getYInfBound()>-1e9f) mc::fail("empty","an empty polygon restricts points (float)");
  });
  memberLists("3x3 triples",3,3,3);
  memberLists("4x4 triples",4,4,3);
  memberLists("3x3 quadruples",3,3,4);
  memberLists("4x4 quadruples",4,4,4);
  memberLists("3x3 quintuples",3,3,5);
  // all 65536 subsets of the 4x4 grid (polygons of up to 8 sides)
  mc::cases("subsets of 4x4",256,[&](uint64_t c){
    std::vector<IP> g=grid(4,4);
    for(uint64_t m=c*256;m<(c+1)*256;++m)
    {
      std::vector<IP> p; for(int k=0;k<16;++k) if(m>>k&1) p.push_back(g[k]);
      if(refHull(p).size()<3) continue;
      mc::Hash h; h(999)(m); mc::state(h.h);
      try { memberCase<double>(p,frames[m/4%nFrames],"double"); if(mc::ctx.thorough) for(int f=0;f<nFrames;++f) memberCase<float>(p,frames[f],"float"); }
      catch(mc::Fail&e){ e.msg=str(p)+" "+e.msg; throw; }
      mc::traceDone();
    }
  });
  memberLists("5x5 triples",5,5,3); memberLists("5x5 quadruples",5,5,4); memberLists("4x4 quintuples",4,4,5);
  memberOffLists("3x3 triples, displaced",3,3,3); memberOffLists("3x3 quadruples, displaced",3,3,4);
  if(mc::ctx.thorough){ memberLists("6x6 quadruples",6,6,4); memberLists("5x5 quintuples",5,5,5); memberOffLists("3x3 quintuples, displaced",3,3,5); memberOffLists("4x4 quadruples, displaced",4,4,4); }
}
