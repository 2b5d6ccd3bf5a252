// S01, one precision: the real qpOASES wrapper over a stand-in for qpOASES.
#include "mc.h"
namespace
{
using namespace MPCWalkgen;
typedef QPMatrices<SCALAR> Mat;
struct Sizes { int v,c; };
const Sizes SZ[]={{1,0},{2,1},{3,2},{2,5},{4,0}};
const int RET[]={0,qpOASES::RET_MAX_NWSR_REACHED,qpOASES::RET_INIT_FAILED_INFEASIBILITY,qpOASES::TERMINAL_LIST_ELEMENT,qpOASES::RET_DIV_BY_ZERO};
const int NRET=5;
Mat problem(Sizes z,int k)
{
  Mat m; m.Q.resize(z.v,z.v); m.A.resize(z.c,z.v); m.p.resize(z.v); m.xl.resize(z.v); m.xu.resize(z.v); m.bl.resize(z.c); m.bu.resize(z.c);
  for(int i=0;i<z.v;++i) for(int j=0;j<z.v;++j) m.Q(i,j)= i==j? 2+i+k: SCALAR(0.25)/(1+i+j);
  for(int i=0;i<z.c;++i) for(int j=0;j<z.v;++j) m.A(i,j)=i*3-j*2+k;
  for(int i=0;i<z.v;++i){ m.p(i)=i-1+k; m.xl(i)=-10-i-k; m.xu(i)=10+i*2+k; }
  for(int i=0;i<z.c;++i){ m.bl(i)=-20-i*k; m.bu(i)=20+i+k; }
  return m;
}
template<class X> bool same(const std::vector<SCALAR>& a,const X& m){ if((int)a.size()!=m.size()) return false; for(int i=0;i<m.size();++i) if(a[i]!=m.data()[i]) return false; return true; }
// qpOASES reads matrices row by row
template<class X> bool rows(const std::vector<SCALAR>& a,const X& m){ if((int)a.size()!=m.size()) return false; for(int i=0;i<m.rows();++i) for(int j=0;j<m.cols();++j) if(a[i*m.cols()+j]!=m(i,j)) return false; return true; }
struct Inst { QPSolver<SCALAR>* s; Sizes z; bool init=false; };
struct Quiet { std::streambuf *o,*e; std::stringbuf b; Quiet(){ o=std::cout.rdbuf(&b); e=std::cerr.rdbuf(&b); } ~Quiet(){ std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
void history(const std::vector<std::vector<Mat>>& ps,int pa,int pb,uint64_t code,int depth)
{
  auto& sc=qpOASES::script(); sc=qpOASES::Script(); Quiet quiet;
  Inst in[2]={{MAKE(SZ[pa].v,SZ[pa].c),SZ[pa]},{makeQPSolver<SCALAR>(SZ[pb].v,SZ[pb].c),SZ[pb]}}; int which[2]={pa,pb};
  struct Del{ Inst* i; ~Del(){ delete i[0].s; delete i[1].s; } } del{in};
  for(int i=0;i<2;++i) if(in[i].s->getNbVar()!=in[i].z.v||in[i].s->getNbCtr()!=in[i].z.c) mc::fail("size","a solver made for %d variables and %d constraints says %d and %d",in[i].z.v,in[i].z.c,in[i].s->getNbVar(),in[i].s->getNbCtr());
  mc::Radix x(code);
  for(int d=0;d<depth;++d)
  {
    int w=x(2); bool warm=x(2); int os=x(3),r=x(NRET),k=x(2); Inst& I=in[w]; const Mat& m=ps[which[w]][k]; int limit=1+d*7;
    mc::note("solver %d (%d variables, %d constraints): solve problem %d, at most %d iterations, %s start, %s; qpOASES returns %d",w,I.z.v,I.z.c,k,limit,warm?"warm":"cold",os==0?"no log":os==1?"log stream":"log stream in failed state",RET[r]);
    sc.ret.assign(8,RET[r]); sc.next=0; sc.log.clear(); sc.sol.clear(); sc.printed=0; for(int i=0;i<I.z.v;++i) sc.sol.push_back(SCALAR(0.125)*(i+1)+d);
    Mat::VectorX sol=Mat::VectorX::Constant(I.z.v,SCALAR(777)); std::ostringstream log; if(os==2) log.setstate(std::ios::failbit);
    size_t before=quiet.b.str().size();
    bool ok=I.s->solve(m,limit,sol,warm,os?&log:nullptr);
    mc::transition(); mc::checked(6);
    if(sc.log.empty()) mc::fail("not-called","solve does not call the optimiser");
    const auto& e=sc.log.back();
    if(e.nV!=I.z.v||e.nC!=I.z.c) mc::fail("size","the optimiser was made for %d variables and %d constraints",e.nV,e.nC);
    if(ok!=(RET[r]==0)) mc::fail("result","solve says %s, the optimiser returned %d",ok?"success":"failure",RET[r]);
    if(ok) for(int i=0;i<I.z.v;++i) if(sol(i)!=sc.sol[i]) mc::fail("solution","component %d of the solution is %g, the optimiser found %g",i,(double)sol(i),(double)sc.sol[i]);
    if(sol.size()!=I.z.v) mc::fail("solution","the solution has %d components",(int)sol.size());
    for(const auto& v:sc.log)
    {
      if(v.hot&&!warm) mc::fail("start","hot start although a cold one was asked");
      if(v.hot&&!I.init) mc::fail("start","hot start of an optimiser that was never initialised");
      if(!v.hot) I.init=true;
      if(!same(v.g,m.p)||!same(v.lb,m.xl)||!same(v.ub,m.xu)||!same(v.lbA,m.bl)||!same(v.ubA,m.bu)) mc::fail("data","the optimiser was given another gradient or other bounds than the problem's");
      if(!v.hot&&(!rows(v.H,m.Q)||!rows(v.A,m.A))) mc::fail("data","the optimiser was initialised with other matrices than the problem's");
      if(v.nWSR!=limit) mc::fail("limit","the optimiser may use %d iterations, asked %d",v.nWSR,limit);
    }
    if(!os&&quiet.b.str().size()!=before) mc::fail("log","diagnostics were written although none were asked");
    if(sc.printed) mc::fail("log","the optimiser prints");
    mc::Hash h; h(w)(warm)(os)(r)(k)(d)(I.init)(in[1-w].init)(pa)(pb); mc::state(h.h); mc::Hash o; o(ok)(e.hot)(log.str().size()>0)(d); mc::outcome(o.h);
  }
  mc::traceDone();
}
void all()
{
  std::vector<std::vector<Mat>> ps; for(auto z:SZ) ps.push_back({problem(z,0),problem(z,1)});
  const int K=2*2*3*NRET*2; int D= mc::ctx.thorough?4:3; static const int pairs[][2]={{1,2},{0,3},{4,1}};
  mc::cases(FAMILY,3*mc::ipow(K,D-2),[&](uint64_t i){ for(int j=0;j<K*K;++j){ history(ps,pairs[i%3][0],pairs[i%3][1],(uint64_t)j+(i/3)*K*K,D); mc::clearNotes(); } if(i==7){ history(ps,1,2,12345,D); mc::sample(); } });
}
}
