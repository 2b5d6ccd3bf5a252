// R03: memory. The histories of the other checks under the address and undefined-behaviour sanitizers: any access
// outside the objects that live, and any undefined operation, ends the process and is reported with the history.
// Every history is run again and again: no run may leave more memory in use than the one before. Instances that
// are used for a long time must not need more and more.
#include "qp.h"
#include "traj.h"
#include "zeb.h"
#include "hum.h"
#include "progs.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:quarantine_size_mb=16:malloc_context_size=4"; }
extern "C" const char* __ubsan_default_options(){ return "print_stacktrace=0:halt_on_error=1"; }
void modelHistories(int depth); void footHistories(int n);
static void repeat(std::function<void()> history,std::function<void()>)
{
  size_t used[4]; for(int m=0;m<3;++m){ mc::clearNotes(); history(); used[m]=__sanitizer_get_current_allocated_bytes(); }
  mc::checked(1); if(used[2]>used[1]){ history(); used[3]=__sanitizer_get_current_allocated_bytes(); if(used[3]>used[2]) mc::fail("leak","a life of the instance leaves %zu, and the next one %zu more bytes in use",used[2]-used[1],used[3]-used[2]); }
  mc::clearNotes();
}
template<class S> static void polygons(uint64_t i,int n,int grid)
{
  typedef typename Type<S>::Vector2 V2; typename Type<S>::vectorOfVector2 v; mc::Radix r(i); for(int k=0;k<n;++k){ int p=r(grid*grid); v.push_back(V2((S)(p%grid),(S)(p/grid))); }
  ConvexPolygon<S> c(v),d(c),e; e=c; d=e; e=ConvexPolygon<S>(); S s=0; for(auto& q:d.getVertices()) s+=q(0); for(int k=0;k<d.getNbGeneralConstraints();++k) s+=d.getGeneralConstraintsMatrixCoefsForX()(k)+d.getGeneralConstraintsMatrixCoefsForY()(k)+d.getGeneralConstraintsConstantPart()(k);
  mc::checked(); if(s!=s) mc::fail("polygon","not a number"); mc::traceDone();
}
MC_CHECK(R03)
{
  traj::memory(repeat); zeb::memory(repeat); hum::memory(repeat);
  modelHistories(mc::ctx.thorough?3:2); footHistories(4);
  for(int n=0;n<=5;++n) mc::cases("polygons",mc::ipow(9,n),[&](uint64_t i){ polygons<double>(i,n,3); polygons<float>(i,n,3); });
  mc::cases("long use",KINDS*2,[&](uint64_t i){
    mc::note("%s, variant %d",names[i%KINDS],(int)(i/KINDS));
    qp::env.reset(); qp::env.answer=[](const qp::Call& c,qp::V& s){ s.resize(c.nbVar); for(int k=0;k<s.size();++k) s(k)=0.03125*((k*7)%5-2)+0.001*c.p(k)/(1+std::fabs(c.p(k))); return true; };
    struct Off{ ~Off(){ qp::env.reset(); } } off; std::unique_ptr<Prog> p(make((int)(i%KINDS),(int)(i/KINDS))); p->run(0,p->n); size_t used[4]; int len= mc::ctx.thorough?60:12;
    for(int k=0;k<4;++k){ for(int l=0;l<len;++l) p->cycle(); used[k]=__sanitizer_get_current_allocated_bytes(); mc::transition(len); }
    mc::note("%s, variant %d: the same calls %d times, bytes in use %zu, %zu, %zu, %zu",names[i%KINDS],(int)(i/KINDS),4*len,used[0],used[1],used[2],used[3]); mc::checked(3); mc::sample();
    if(used[3]>used[2]&&used[2]>used[1]) mc::fail("growth","the longer the instance is used the more memory it needs: %zu, %zu, %zu bytes",used[1],used[2],used[3]); mc::traceDone(); });
}
