// S02: warm starts over all histories. R01: the same history in memory of different previous content, and
// with another instance acting in between, gives bit-identical results.
#include "qp.h"
#include "traj.h"
#include "zeb.h"
#include "hum.h"
#include <malloc.h>
void modelHistories(int depth); void footHistories(int n); void otherModelsAct(); extern std::function<void()> modelBetween;
MC_CHECK(S02)
{
  qp::pinning=true; traj::all(traj::WARM); zeb::all(zeb::WARM); hum::all(hum::WARM);
}
static void perturb(int fill){ mallopt(M_PERTURB,fill<0?0:(fill^0xff)&0xff); }
static void same(std::function<void()> history,std::function<void()> other)
{
  static const int fills[]={-1,0xff,0x7f,0x3f}; std::vector<uint64_t> first;
  for(int m=0;m<5;++m)
  {
    const char* how= m==4? "with another instance acting in between": m==0? "": m==1? "in memory filled with 0xff": m==2? "in memory filled with 0x7f": "in memory filled with 0x3f";
    qp::watch=qp::Watch(); qp::watch.on=true; qp::watch.fill= m<4? fills[m]: -1; if(m==4) qp::watch.between=other;
    mc::clearNotes(); perturb(qp::watch.fill);
    struct Off{ ~Off(){ perturb(-1); } } off;
    try{ history(); } catch(...){ qp::watch=qp::Watch(); throw; }
    std::vector<uint64_t> seen=qp::watch.seen; qp::watch=qp::Watch(); mc::checked(seen.size());
    if(m==0){ first=seen; continue; }
    if(seen.size()!=first.size()) mc::fail(m==4?"instances":"memory","%zu values were observed %s, %zu otherwise",seen.size(),how,first.size());
    for(size_t i=0;i<seen.size();++i) if(seen[i]!=first[i]) mc::fail(m==4?"instances":"memory","observation %zu of %zu differs %s",i,seen.size(),how);
  }
  mc::clearNotes();
}
MC_CHECK(R01)
{
  traj::memory(same); zeb::memory(same); hum::memory(same);
  for(int fill: {0xff,0x7f}){ qp::watch=qp::Watch(); qp::watch.fill=fill; perturb(fill); qp::scribble(); modelHistories(mc::ctx.thorough?3:2); footHistories(4); perturb(-1); qp::watch=qp::Watch(); }
  modelBetween=otherModelsAct; modelHistories(mc::ctx.thorough?3:2); footHistories(4); modelBetween=nullptr;
}
