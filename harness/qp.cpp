#include "qp.h"
namespace MPCWalkgen
{
template<> QPSolver<double>* makeQPSolver<double>(int v,int c){ return new qp::EnvSolver<double>(v,c); }
template<> QPSolver<float>* makeQPSolver<float>(int v,int c){ return new qp::EnvSolver<float>(v,c); }
}
namespace qp
{
Env env;
Watch watch;
__attribute__((noinline)) void scribble(){ if(watch.fill<0) return; volatile char b[32768]; memset((void*)b,watch.fill,sizeof b); asm volatile(""::"r"(b):"memory"); }
bool pinning=false; size_t pinSize[2]={0,0};
static void pin()
{
  static std::vector<void*> held; std::vector<void*> now;
  for(size_t s: pinSize) if(s) for(int k=0;k<3;++k){ void* p=malloc(s); memset(p,0xbf,s); now.push_back(p); }
  for(void* p: held) free(p);
  held.swap(now);
}
void between()
{
  if(pinning) pin();
  if(watch.between){ Env e=env; Watch w=watch; watch=Watch(); env.answer=nullptr; w.between(); e.made=env.made; e.alive=env.alive; env=e; watch=w; }
  scribble();
}

Res solveQP(const M& Q,const V& p,const std::vector<Half>& hs,double tol)
{
  int n=(int)p.size(); Res res;
  Eigen::LLT<M> llt(Q);
  V x=-llt.solve(p);
  std::vector<int> W; std::vector<double> u;
  double sc=1; for(auto&h:hs) sc=std::max(sc,std::fabs(h.c)); if(sc>1e3) sc=1e3;
  for(int it=0;it<5000;++it)
  {
    int worst=-1; double s=tol*sc;
    for(size_t i=0;i<hs.size();++i){ double v=hs[i].n.dot(x)-hs[i].c; if(v>s && std::find(W.begin(),W.end(),(int)i)==W.end()){ s=v; worst=(int)i; } }
    if(worst<0){ res.feasible=true; res.x=x; return res; }
    V np=hs[worst].n; double up=0;
    for(int it2=0;it2<1000;++it2)
    {
      V z,r; int k=(int)W.size();
      V Qn=llt.solve(np);
      if(k)
      {
        M Nm(n,k); for(int j=0;j<k;++j) Nm.col(j)=hs[W[j]].n;
        M QN=llt.solve(Nm); M G=Nm.transpose()*QN;
        r=G.ldlt().solve(Nm.transpose()*Qn); z=Qn-QN*r;
      }
      else z=Qn;
      double t1=INFINITY; int drop=-1;
      for(int j=0;j<k;++j) if(r(j)>1e-14 && u[j]/r(j)<t1){ t1=u[j]/r(j); drop=j; }
      double zn=z.dot(np), viol=hs[worst].n.dot(x)-hs[worst].c;
      double t2 = zn>1e-13*std::max(1e-300,Qn.dot(np))*1e2 && zn>0? viol/zn: INFINITY;
      double t=std::min(t1,t2);
      if(std::isinf(t)) return res;           // infeasible
      for(int j=0;j<k;++j) u[j]-=t*r(j);
      up+=t;
      if(!std::isinf(t2)) x-=t*z;
      if(t2<=t1){ W.push_back(worst); u.push_back(up); break; }
      W.erase(W.begin()+drop); u.erase(u.begin()+drop);
    }
  }
  return res;
}
void addHalf(std::vector<Half>& v,const V& n,double c,int tag)
{
  if(!(std::fabs(c)<1e9)) { if(c>0) return; if(c!=c) mc::fail("nan-bound","a bound is not a number"); }
  double l=n.norm();
  if(!std::isfinite(l)) mc::fail("nan-row","a constraint row is not finite");
  if(l<1e-12){ if(c>=-1e-9) return; Half h; h.n=V::Zero(n.size()); h.c=-1; h.tag=tag; v.push_back(h); return; }
  if(!(std::fabs(c/l)<1e9) && c>0) return;
  Half h; h.n=n/l; h.c=c/l; h.tag=tag; v.push_back(h);
}
void addBetween(std::vector<Half>& v,const V& n,double lo,double hi,int tag){ addHalf(v,n,hi,tag); addHalf(v,V(-n),-lo,tag); }
std::vector<Half> halves(const Call& c,const V& X0,int from,int nb,bool box)
{
  std::vector<Half> v; if(nb<0) nb=(int)c.A.rows()-from;
  for(int i=from;i<from+nb;++i)
  {
    V n=c.A.row(i).transpose(); double o=n.dot(X0);
    if(c.bu(i)<1e10) addHalf(v,n,c.bu(i)+o);
    if(c.bl(i)>-1e10) addHalf(v,V(-n),-c.bl(i)-o);
  }
  if(box) for(int i=0;i<c.xl.size();++i)
  {
    V e=V::Zero(c.xl.size()); e(i)=1;
    if(c.xu(i)<1e10) addHalf(v,e,c.xu(i)+X0(i));
    e(i)=-1;
    if(c.xl(i)>-1e10) addHalf(v,e,-c.xl(i)-X0(i));
  }
  return v;
}
bool hasMatch(const std::vector<Half>& a,const Half& h,double tol)
{
  for(const Half& g:a) if(std::fabs(g.c-h.c)<=tol*(1+std::fabs(h.c)) && (g.n-h.n).cwiseAbs().maxCoeff()<=tol) return true;
  return false;
}
bool implied(const std::vector<Half>& a,const Half& h,double tol,V& witness)
{
  std::vector<Half> b=a; Half o; o.n=-h.n; o.c=-(h.c+tol*(1+std::fabs(h.c)));
  for(Half& g:b) if(g.n.squaredNorm()==0) return true;     // a is empty
  if(h.n.squaredNorm()==0) { b=a; } else b.push_back(o);
  int n=(int)h.n.size();
  Res r=solveQP(M::Identity(n,n),V::Zero(n),b,1e-10);
  if(!r.feasible) return true;
  witness=r.x; return false;
}
bool sameSets(const std::vector<Half>& a,const std::vector<Half>& b,double tol)
{
  V w;
  for(const Half& h:a) if(!hasMatch(b,h,tol) && !implied(b,h,20*tol,w)) return false;
  for(const Half& h:b) if(!hasMatch(a,h,tol) && !implied(a,h,20*tol,w)) return false;
  return true;
}
static std::string str(const V& x){ std::string s; char b[40]; for(int i=0;i<x.size();++i){ snprintf(b,sizeof b,"%s%.6g",i?",":"",x(i)); s+=b; } return s; }
void compareSets(const std::string& key,const std::vector<Half>& ref,const std::vector<Half>& got,double tol,int mask,bool excess)
{
  V w; mc::checked(ref.size()+got.size());
  for(const Half& h:ref) if((h.tag==0||(h.tag&mask)) && !hasMatch(got,h,tol) && !implied(got,h,20*tol,w))
    mc::fail(key+"-admits","the problem admits the inadmissible plan X=(%s), which breaks (%s).X<=%.9g",str(w).c_str(),str(h.n).c_str(),h.c);
  if(excess) for(const Half& h:got) if(!hasMatch(ref,h,tol) && !implied(ref,h,20*tol,w))
    mc::fail(key+"-excludes","the problem excludes the admissible plan X=(%s) by (%s).X<=%.9g",str(w).c_str(),str(h.n).c_str(),h.c);
}
void addAff(Cost& k,double w,const Aff& e)
{
  if(w==0) return;
  k.Q.noalias()+=w*e.a*e.a.transpose(); k.Qabs.noalias()+=w*e.aa*e.aa.transpose();
  k.p+=w*e.a*(e.a.dot(k.X)+e.b); k.pabs+=w*e.aa*(e.aa.dot(k.X.cwiseAbs())+k.xs*e.aa.sum()+e.bb);
}
void compareCost(const std::string& key,const Cost& ref,const Call& c,double tol)
{
  mc::checked(ref.n*ref.n+ref.n);
  if(c.Q.rows()!=ref.n||c.p.size()!=ref.n) mc::fail(key+"-size","the problem has %d variables, expected %d",(int)c.Q.rows(),ref.n);
  // scale factor: from the largest reference entry
  int bi=0,bj=0; double best=-1;
  for(int i=0;i<ref.n;++i) for(int j=0;j<ref.n;++j) if(std::fabs(ref.Q(i,j))>best){ best=std::fabs(ref.Q(i,j)); bi=i; bj=j; }
  double f=1;
  if(best<=1e-40)
  {
    if(!(c.Q.cwiseAbs().maxCoeff()<=1e-9)||!(c.p.cwiseAbs().maxCoeff()<=1e-9)) mc::fail(key,"every term has zero weight but the cost is not constant");
    return;
  }
  f=c.Q(bi,bj)/ref.Q(bi,bj);
  if(!(f>0)||!std::isfinite(f)) mc::fail(key,"cost matrix entry (%d,%d) is %g, reference %g",bi,bj,c.Q(bi,bj),ref.Q(bi,bj));
  for(int i=0;i<ref.n;++i)
  {
    for(int j=0;j<ref.n;++j) if(!(std::fabs(c.Q(i,j)/f-ref.Q(i,j))<=tol*ref.Qabs(i,j)+1e-14*best))
      mc::fail(key,"cost matrix entry (%d,%d): %.9g after removing the factor %g, expected %.9g",i,j,c.Q(i,j)/f,f,ref.Q(i,j));
    if(!(std::fabs(c.p(i)/f-ref.p(i))<=tol*ref.pabs(i)+1e-14*best))
      mc::fail(key+"-gradient","cost gradient entry %d: %.9g after removing the factor %g, expected %.9g",i,c.p(i)/f,f,ref.p(i));
  }
}
}
