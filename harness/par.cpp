// R02: two instances used by two threads. The scheduler runs thread A and switches to thread B once, at a chosen basic
// block of the library (the repository's sources are compiled with -fsanitize-coverage=trace-pc, which calls the
// scheduler at every basic block); B, a thread of its own, then runs a part of its calls, and A goes on. Every schedule with one such switch is
// run, for the first and the last passage of A's every call through each of its basic blocks; and again in processes
// that have never used the library before, where whatever is prepared at first use is still to be prepared.
#include "mc.h"
#include "progs.h"
#include <thread>
#include <future>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>
#include <unordered_map>
// ---- the scheduler ----
static std::atomic<bool> armed(false); static uint64_t seq=0,target=UINT64_MAX; static std::function<void()> switchTo; static std::thread pending; static bool hit=false;
static std::unordered_map<void*,std::pair<uint64_t,uint64_t>>* record=nullptr;
extern "C" void __sanitizer_cov_trace_pc()
{
  if(!armed.load(std::memory_order_relaxed)) return;
  uint64_t s=seq++;
  if(record){ armed=false; auto r=record->emplace(__builtin_return_address(0),std::make_pair(s,s)); r.first->second.second=s; armed=true; return; }
  if(s==target)
  {
    armed=false; hit=true; std::packaged_task<void()> task(switchTo); std::future<void> end=task.get_future(); pending=std::thread(std::move(task));
    static int blocked=0; if(end.wait_for(std::chrono::milliseconds(blocked>40?60:300))==std::future_status::ready){ pending.join(); armed=true; } else ++blocked;   // otherwise B waits for something A holds: A goes on, and B ends later
  }
}
static void await(){ if(pending.joinable()) pending.join(); }
// ---- the solver of the harness: nothing is shared between its instances ----
template<class S> struct Fake : QPSolver<S>
{
  int v,c; Fake(int a,int b):v(a),c(b){}
  bool solve(const QPMatrices<S>& m,int,typename QPMatrices<S>::VectorX& x,bool w,std::ostream*)
  {
    bool was=armed; armed=false; seeM(m.Q); seeM(m.A); seeM(m.p); seeM(m.xl); seeM(m.xu); seeM(m.bl); seeM(m.bu); see(&w,1); see(&v,sizeof v); see(&c,sizeof c);
    x.resize(v); for(int i=0;i<v;++i) x(i)=(S)(0.03125*((i*7)%5-2))+m.p(i)/(1+std::fabs(m.p(i)))*(S)0.001; armed=was; return true;
  }
  int getNbVar() const { return v; }
  int getNbCtr() const { return c; }
};
namespace MPCWalkgen
{
template<> QPSolver<double>* makeQPSolver<double>(int v,int c){ return new Fake<double>(v,c); }
template<> QPSolver<float>* makeQPSolver<float>(int v,int c){ return new Fake<float>(v,c); }
}
static uint64_t alone(int kind,int var){ std::unique_ptr<Prog> p(make(kind,var)); p->run(0,p->n); return p->seen; }
struct Point { int call; uint64_t at; };
struct Plan { uint64_t want[2]; std::vector<Point> points; };
// what each thread alone observes, and the points of thread A where a switch is possible
static Plan plan(int kind,bool fresh)
{
  Plan pl; if(!fresh) for(int v=0;v<2;++v) alone(kind,v);
  std::set<std::pair<int,uint64_t>> all; Prog* a=nullptr; int n=1; pl.want[0]=0;
  for(int k=-1;k<=n;++k)
  {
    std::unordered_map<void*,std::pair<uint64_t,uint64_t>> rec; seq=0; record=&rec; sink= a? &a->seen: nullptr; if(k==n) pl.want[0]=a->seen; armed=true;
    if(k<0) a=make(kind,0); else if(k==n) delete a; else a->call(k);
    armed=false; sink=nullptr; record=nullptr; if(k<0) n=a->n;
    for(auto& r:rec){ all.insert({k,r.second.first}); all.insert({k,r.second.second}); }
  }
  for(auto& p:all) pl.points.push_back({p.first,p.second});
  pl.want[1]=alone(kind,1);
  return pl;
}
enum { HOLDS=0, REPEAT=10, SECOND, FIRST };
// one schedule: A is interrupted at a point, where B makes some or all of its calls
static int schedule(int kind,const Plan& pl,Point pt,int how,uint64_t& got)
{
  std::unique_ptr<Prog> b; bool wrong=false; hit=false; if(how) b.reset(make(kind,1)); if(how==1||how==2) b->run(0,1);
  switchTo=[&]{ if(how==0){ std::unique_ptr<Prog> o(make(kind,1)); o->run(0,o->n); wrong=o->seen!=pl.want[1]; } else if(how==1) b->run(1,2); else if(how==2) b->run(1,b->n); else b->run(0,1); };
  Prog* a=nullptr; int n=1; got=0;
  struct Off{ ~Off(){ armed=false; target=UINT64_MAX; sink=nullptr; await(); } } off;
  for(int k=-1;k<=n;++k){ seq=0; target= k==pt.call? pt.at: UINT64_MAX; if(k==n) got=a->seen; sink= a? &a->seen: nullptr; armed= k==pt.call; if(k<0) a=make(kind,0); else if(k==n) delete a; else a->call(k); armed=false; if(k<0) n=a->n; }
  sink=nullptr; await();
  if(!hit) return REPEAT;
  if(wrong) return SECOND;
  if(got!=pl.want[0]) return FIRST;
  if(how){ b->run(how==2?b->n:how==1?2:1,b->n); if(b->seen!=pl.want[1]) return SECOND; }
  return HOLDS;
}
static void judge(int r,const char* when)
{
  if(r==REPEAT) mc::fail("schedule","the execution of A does not repeat%s",when);
  if(r==SECOND) mc::fail("second","the results of B depend on what A does meanwhile%s",when);
  if(r==FIRST) mc::fail("first","the results of A depend on what B does meanwhile%s",when);
  if(r!=HOLDS) mc::fail("died","the process does not survive the schedule%s (status %d)",when,r);
}
template<class F> static int inChild(F f){ fflush(nullptr); pid_t p=fork(); if(p==0){ int r=99; try { r=f(); } catch(...) {} _exit(r); } int st=0; waitpid(p,&st,0); return WIFEXITED(st)?WEXITSTATUS(st):128+WTERMSIG(st); }
MC_CHECK(R02)
{
  const uint64_t batch=8; static const char* const what[]={"B starts and ends there","B makes its second call there","B makes all its calls but the first there","B is configured there"};
  for(int kind=0;kind<KINDS;++kind)
  {
    // in processes that have not used the library yet (so nothing may run in this one before)
    Plan pl; int fd[2]; if(pipe(fd)) mc::fail("pipe","no pipe");
    pid_t p=fork();
    if(p==0){ close(fd[0]); FILE* f=fdopen(fd[1],"w"); Plan q=plan(kind,true); uint64_t n=q.points.size(); fwrite(q.want,8,2,f); fwrite(&n,8,1,f); fwrite(q.points.data(),sizeof(Point),n,f); fclose(f); _exit(0); }
    { close(fd[1]); FILE* f=fdopen(fd[0],"r"); uint64_t n=0; if(fread(pl.want,8,2,f)!=2||fread(&n,8,1,f)!=1) n=0; pl.points.resize(n); if(n&&fread(pl.points.data(),sizeof(Point),n,f)!=n) pl.points.clear(); fclose(f); int st; waitpid(p,&st,0); }
    mc::oneCase((std::string(names[kind])+", alone in a new process").c_str(),[&]{ mc::checked(1); if(pl.points.empty()) mc::fail("died","the process does not survive the calls of one thread"); });
    mc::cases((std::string(names[kind])+", first use").c_str(),(pl.points.size()+batch-1)/batch,[&](uint64_t c){
      for(uint64_t i=c*batch;i<c*batch+batch&&i<pl.points.size();++i)
      {
        Point pt=pl.points[i]; mc::note("A (%s) is interrupted in call %d at basic block %llu of a process that has not used the library before, %s",names[kind],pt.call,(unsigned long long)pt.at,what[0]);
        int r=inChild([&]{ uint64_t got; return schedule(kind,pl,pt,0,got); });
        mc::checked(2); mc::transition(); mc::traceDone(); judge(r," in a new process"); mc::Hash h; h(kind)(pt.call)(pt.at)(9); mc::state(h.h); mc::clearNotes();
      } });
  }
  for(int kind=0;kind<KINDS;++kind)
  {
    Plan pl=plan(kind,false);
    int others= 2+(mc::ctx.thorough?2:0);
    mc::cases(names[kind],(pl.points.size()*others+batch-1)/batch,[&](uint64_t c){
      for(uint64_t i=c*batch;i<c*batch+batch&&i<pl.points.size()*others;++i)
      {
        int how=(int)(i/pl.points.size()); Point pt=pl.points[i%pl.points.size()]; mc::note("A (%s) is interrupted in call %d at basic block %llu, %s",names[kind],pt.call,(unsigned long long)pt.at,what[how]);
        uint64_t got=0; int r=schedule(kind,pl,pt,how,got);
        mc::checked(2); mc::transition(); mc::traceDone(); judge(r,"");
        mc::Hash h; h(kind)(pt.call)(pt.at)(how); mc::state(h.h); mc::outcome(got); mc::clearNotes();
      }
      if(c==3){ mc::note("%zu points of A where a switch is possible; at each of them B runs",pl.points.size()); mc::sample(); } });
  }
}
