// S03: normalisation of quadratic problems, directly on all small problems and through the generators.
#include "qp.h"
#include "traj.h"
#include "zeb.h"
#include "hum.h"
using namespace MPCWalkgen;
static const double VAL[]={0,1e-7,0.9e-4,1.1e-4,0.0078125,1,250,-0.0009765625,-3};
static const int NV=9;
template<class S> static bool prop(const Eigen::MatrixXd& before,const Eigen::MatrixXd& after,double f,double tol){ for(int i=0;i<before.size();++i){ double e=before.data()[i]*f,a=after.data()[i]; if(!(std::fabs(a-e)<=tol*std::fabs(e))) return false; } return true; }
template<class S> static void one(const QPMatrices<S>& m0,double eps)
{
  QPMatrices<S> m=m0; m.normalizeMatrices((S)eps); mc::transition(); mc::traceDone(); mc::checked(6);
  auto d=[](const auto& x){ return Eigen::MatrixXd(x.template cast<double>()); };
  double tol=sizeof(S)==4?1e-5:1e-12;
  auto group=[&](const char* what,const char* vec,const Eigen::MatrixXd& A,const Eigen::MatrixXd& A1,std::vector<Eigen::MatrixXd> b,std::vector<Eigen::MatrixXd> b1)
  {
    double best=0,f=1; auto look=[&](const Eigen::MatrixXd& x,const Eigen::MatrixXd& y){ for(int i=0;i<x.size();++i) if(std::fabs(x.data()[i])>best){ best=std::fabs(x.data()[i]); f=y.data()[i]/x.data()[i]; } };
    if(A.size()!=A1.size()) mc::fail("size","the size of %s changed",what);
    look(A,A1); if(best==0) for(size_t k=0;k<b.size();++k) look(b[k],b1[k]);
    if(!(f>0)||!std::isfinite(f)) mc::fail("factor","%s multiplied by %g",what,f);
    if(!prop<S>(A,A1,f,tol)) mc::fail("matrix","the entries of %s are not multiplied by the same factor (%g)",what,f);
    for(size_t k=0;k<b.size();++k) if(b[k].size()!=b1[k].size()||!prop<S>(b[k],b1[k],f,tol)) mc::fail("vector","%s is multiplied by %g, but not its %s (part %zu)",what,f,vec,k);
    for(int i=0;i<A.size();++i) if(std::fabs(A.data()[i])>eps*1.001&&!(std::fabs(A1.data()[i])>=1-1e-5)) mc::fail("small","entry %g of %s ends as %g",A.data()[i],what,A1.data()[i]);
    mc::Hash h; h.d(f); mc::outcome(h.h);
  };
  group("the cost matrix","gradient",d(m0.Q),d(m.Q),{d(m0.p)},{d(m.p)});
  group("the constraint matrix","bounds",d(m0.A),d(m.A),{d(m0.bl),d(m0.bu)},{d(m.bl),d(m.bu)});
  if(m.xl!=m0.xl||m.xu!=m0.xu) mc::fail("box","the bounds of the variables changed");
}
template<class S> static void problem(int n,int c,uint64_t q,uint64_t a,int k)
{
  static const double EPS[]={1e-4,1e-3,1e-6}; QPMatrices<S> m; mc::Radix x(q),y(a);
  m.Q.setZero(n,n); for(int i=0;i<n;++i) for(int j=i;j<n;++j) m.Q(i,j)=m.Q(j,i)=(S)VAL[x(NV)];
  m.A.setZero(c,n); for(int i=0;i<c;++i) for(int j=0;j<n;++j) m.A(i,j)=(S)VAL[y(NV)];
  m.p.resize(n); m.xl.resize(n); m.xu.resize(n); m.bl.resize(c); m.bu.resize(c);
  for(int i=0;i<n;++i){ m.p(i)=(S)VAL[(k+i*2)%NV]; m.xl(i)=(S)(-1e10+k*(i%2)*1e10); m.xu(i)=(S)(k+i); }
  for(int i=0;i<c;++i){ m.bl(i)=(S)((k+i)%3==0?-1e10: -0.5-i); m.bu(i)=(S)((k+i)%4==1?1e10: 0.001*(k+i)); }
  one(m,EPS[k%3]);
}
MC_CHECK(S03)
{
  bool th=mc::ctx.thorough; auto P=[](int e){ return mc::ipow(NV,e); };
  for(int n=1;n<=2;++n) for(int c=0;c<=2;++c)
  {
    uint64_t nq=P(n*(n+1)/2),na=P(c*n);
    char name[60]; snprintf(name,sizeof name,"%d variables, %d constraints",n,c);
    mc::cases(strdup(name),nq,[&](uint64_t q){ mc::note("cost matrix #%llu, every constraint matrix",(unsigned long long)q); for(uint64_t a=0;a<na;++a) for(int k=0;k<(n*c<4||th?NV:1);++k){ problem<double>(n,c,q,a,n*c<4||th?k:(int)(a%NV)); if((a+k)%4==0) problem<float>(n,c,q,a,k); } if(q==5) mc::sample(); });
  }
  // three variables: every cost matrix, and every row
  mc::cases("3 variables, cost",P(4),[&](uint64_t q){ for(uint64_t k=0;k<P(2);++k) problem<double>(3,0,q*P(2)+k,0,(int)(k%NV)); });
  mc::cases("3 variables, 1 constraint",P(3),[&](uint64_t a){ for(int k=0;k<NV;++k) problem<double>(3,1,a*31%P(6),a,k); });
  // the problems of the generators
  traj::all(traj::COST|traj::SET|traj::FEW); zeb::all(zeb::COST|zeb::MOTION|zeb::SUPPORT|zeb::FEW); hum::all(hum::COST|hum::COP|hum::STEPS|hum::FEW);
}
