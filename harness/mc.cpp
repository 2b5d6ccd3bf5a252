#include "mc.h"
#include <map>
#include <unistd.h>
#include <malloc.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <fstream>

#ifdef MC_COV
extern "C" void __gcov_dump();   // tools/coverage.py
#endif
namespace mc
{
Ctx ctx;
static std::map<std::string,CheckFn>& registry(){ static std::map<std::string,CheckFn> r; return r; }
Reg::Reg(const char* id, CheckFn f){ registry()[id]=f; }

static const int MAXW=16;
static const int TRACE=16384;
struct Slot { std::atomic<uint64_t> current; std::atomic<uint64_t> startedMs; std::atomic<int> done; char fam[64]; char trace[TRACE]; };
struct Shared { std::atomic<uint64_t> next; std::atomic<uint64_t> failures, longest; Slot slot[MAXW]; };
static Shared* sh=nullptr;
static Slot* me=nullptr;
static std::string outPrefix;
static FILE* failFile=nullptr;
static size_t traceLen=0;

static uint64_t nowMs(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000ull+t.tv_nsec/1000000; }

static void claim(){ ctx.claimed = (ctx.only!=UINT64_MAX)? ctx.only : sh->next.fetch_add(1); }

bool beginCase()
{
  uint64_t id=ctx.counter++;
  return id==ctx.claimed && sh->failures.load()<2000;
}

void note(const char* fmt,...)
{
  char buf[1024]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  size_t n=strlen(buf);
  if(me && traceLen+n+2<TRACE){ memcpy(me->trace+traceLen,buf,n); traceLen+=n; me->trace[traceLen++]='\n'; me->trace[traceLen]=0; }
}

void clearNotes(){ traceLen=0; if(me) me->trace[0]=0; }

void fail(const std::string& key,const char* fmt,...)
{
  char buf[2048]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  throw Fail{key,buf};
}

static std::string esc(const std::string& s)
{
  std::string o; for(char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if((unsigned char)c<32) o+=' '; else o+=c; } return o;
}
static void writeFail(FILE* f,uint64_t id,const std::string& fam,const std::string& key,const std::string& msg,const std::string& trace)
{
  fprintf(f,"{\"case\":%llu,\"family\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\"}\n",(unsigned long long)id,esc(fam).c_str(),esc(key).c_str(),esc(msg).c_str(),esc(trace).c_str());
  fflush(f);
}

static bool wantSample=false;
static std::map<std::string,uint64_t> famMs;
void sample(){ wantSample=true; }

void report(const std::string& key,const char* fmt,...)
{
  static std::set<std::string> done; if(!done.insert(key).second) return;
  char buf[2048]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  writeFail(failFile,ctx.counter-1,ctx.family,key,buf,me->trace);
  sh->failures.fetch_add(1);
}

// Memory that nobody wrote holds the same conspicuous values in every run: 0x40... is 32.5 as a double and 3.0 as a float.
__attribute__((noinline)) static void scribbleStack(){ volatile char junk[24576]; memset(const_cast<char*>(junk),0x40,sizeof junk); asm volatile(""::"r"(junk):"memory"); }
void runCase(const std::function<void()>& f)
{
  scribbleStack();
  uint64_t id=ctx.counter-1;
  traceLen=0; me->trace[0]=0; wantSample=false;
  strncpy(me->fam,ctx.family.c_str(),63); me->fam[63]=0;
  me->current.store(id); me->startedMs.store(nowMs());
  ++ctx.st.cases;
  try { f(); }
  catch(const Fail& e){ sh->failures.fetch_add(1); writeFail(failFile,id,ctx.family,e.key,e.msg,me->trace); }
  catch(const std::exception& e){ sh->failures.fetch_add(1); writeFail(failFile,id,ctx.family,"exception",e.what(),me->trace); }
  if((wantSample||id==0) && ctx.samples.size()<2 && me->trace[0]) ctx.samples.push_back(ctx.family+": "+me->trace);
  { uint64_t t=nowMs()-me->startedMs.load(); famMs[ctx.family]+=t; if(t>sh->longest.load()) sh->longest.store(t); }
  me->startedMs.store(0);
  claim();
}
void endCase(){}

static void dumpWorker(int w)
{
  std::ofstream o(outPrefix+"."+std::to_string(w)+".stats");
  o<<ctx.st.cases<<" "<<ctx.st.transitions<<" "<<ctx.st.traces<<" "<<ctx.st.checks<<"\n";
  for(auto&s: ctx.samples) o<<esc(s)<<"\n";
  o.close();
  for(int k=0;k<2;++k)
  {
    const auto& set = k? ctx.outcomes: ctx.seen;
    std::vector<uint64_t> v(set.begin(),set.end());
    FILE* f=fopen((outPrefix+"."+std::to_string(w)+(k?".out":".seen")).c_str(),"wb");
    if(!v.empty()) fwrite(v.data(),8,v.size(),f);
    fclose(f);
  }
}

static std::vector<Stats> accStats;
static pid_t spawn(CheckFn fn,int w,uint64_t only,const std::string& failPath)
{
  fflush(stdout); fflush(stderr);
  Slot* s=&sh->slot[w]; s->done=0; s->startedMs=0; s->trace[0]=0; s->current=UINT64_MAX;
  pid_t p=fork();
  if(p==0)
  {
    me=s; failFile=fopen(failPath.c_str(),"a");
    int dn=open("/dev/null",O_WRONLY); if(dn>=0&&!getenv("MC_VERBOSE")){ dup2(dn,2); dup2(dn,1); }
    ctx.only=only; ctx.counter=0;
    claim();
    fn();
    if(only==UINT64_MAX) dumpWorker(w);
    if(w==0&&getenv("MC_TIMES")) for(auto& f:famMs) fprintf(stderr,"%8llu ms %s\n",(unsigned long long)f.second,f.first.c_str());
    me->done=1;
    fflush(nullptr);
#ifdef MC_COV
    __gcov_dump();
#endif
    _exit(0);
  }
  return p;
}

// returns: 0 passed, 1 failed (written to failPath), 2 crashed, 3 hang
static int rerun(CheckFn fn,uint64_t id,int slotIdx,const std::string& failPath,int limitS,std::string& trace,std::string& fam,int& sig)
{
  uint64_t fails=sh->failures.load();
  sh->failures.store(0);
  pid_t p=spawn(fn,slotIdx,id,failPath);
  uint64_t t0=nowMs(); int st=0; int rc=-1;
  for(;;)
  {
    pid_t r=waitpid(p,&st,WNOHANG);
    if(r==p){ if(WIFEXITED(st)&&WEXITSTATUS(st)==0) rc = sh->failures.load()?1:0; else { rc=2; sig=WIFSIGNALED(st)?WTERMSIG(st):-WEXITSTATUS(st);} break; }
    if(nowMs()-t0 > (uint64_t)limitS*1000){ kill(p,SIGKILL); waitpid(p,&st,0); rc=3; break; }
    usleep(2000);
  }
  trace=sh->slot[slotIdx].trace; fam=sh->slot[slotIdx].fam;
  sh->failures.store(fails);
  return rc;
}

int mainImpl(int argc,char**argv)
{
  std::string id,tier="quick",out; uint64_t replay=UINT64_MAX; int W=8;
  for(int i=1;i<argc;++i)
  {
    std::string a=argv[i];
    if(a=="--id") id=argv[++i]; else if(a=="--tier") tier=argv[++i]; else if(a=="--out") out=argv[++i];
    else if(a=="--replay") replay=strtoull(argv[++i],0,10); else if(a=="--workers") W=atoi(argv[++i]);
    else if(a=="--list"){ for(auto&k: registry()) printf("%s\n",k.first.c_str()); return 0; }
  }
  auto it=registry().find(id);
  if(it==registry().end()){ fprintf(stderr,"unknown check %s\n",id.c_str()); return 2; }
  CheckFn fn=it->second;
  mallopt(M_PERTURB,0xbf);   // new blocks are filled with 0x40, released ones with 0xbf
  ctx.thorough = tier=="thorough";
  outPrefix=out;
  if(W>MAXW-1) W=MAXW-1;
  sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  const std::string failPath=out+".fail"; unlink(failPath.c_str());
  const std::string badPath=out+".confirmed"; unlink(badPath.c_str());
  const int hangS = tier=="thorough"?300:60;

  if(replay!=UINT64_MAX)
  {
    std::string tr,fam; int sig=0;
    int rc=rerun(fn,replay,0,badPath,300,tr,fam,sig);
    if(rc>=2){ FILE*f=fopen(badPath.c_str(),"a"); writeFail(f,replay,fam,rc==2?"crash":"hang",rc==2?("process died, signal "+std::to_string(sig)):"no progress",tr); fclose(f); }
    printf("case %llu: %s\n%s\n",(unsigned long long)replay,rc==0?"holds":rc==1?"violated":rc==2?"crash":"hang",tr.c_str());
    std::ifstream f(badPath); std::string l; while(std::getline(f,l)) printf("%s\n",l.c_str());
    return rc?1:0;
  }

  std::vector<pid_t> pid(W); std::vector<int> alive(W,1);
  struct Bad{uint64_t id; bool hang; };
  std::vector<Bad> bads; 
  int gen=0; std::vector<int> wid(W);
  for(int w=0;w<W;++w){ wid[w]=w; pid[w]=spawn(fn,w,UINT64_MAX,failPath); }
  int live=W; bool lostStats=false; int crashes=0;
  while(live>0)
  {
    for(int w=0;w<W;++w) if(alive[w])
    {
      int st; pid_t r=waitpid(pid[w],&st,WNOHANG);
      bool dead=false, hang=false;
      if(r==pid[w]) { if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&sh->slot[w].done){ alive[w]=0; --live; continue; } dead=true; }
      else
      {
        uint64_t s=sh->slot[w].startedMs.load();
        if(s && nowMs()-s > (uint64_t)hangS*1000){ kill(pid[w],SIGKILL); waitpid(pid[w],&st,0); dead=true; hang=true; }
      }
      if(dead)
      {
        lostStats=true; ++crashes;
        bads.push_back({sh->slot[w].current.load(),hang});
        if(crashes<12) pid[w]=spawn(fn,w,UINT64_MAX,failPath);
        else { alive[w]=0; --live; }
      }
    }
    usleep(3000);
  }
  (void)gen;
  // confirm: crashes and hangs alone, then ordinary failures alone (first ones of each key)
  int confirmed=0, unconfirmed=0, slow=0; bool sawFail=false;
  std::sort(bads.begin(),bads.end(),[](const Bad&a,const Bad&b){return a.id<b.id;});
  for(auto&b: bads)
  {
    if(b.id==UINT64_MAX){ ++unconfirmed; fprintf(stderr,"a worker died outside a case\n"); continue; }
    std::string tr,fam; int sig=0;
    int rc=rerun(fn,b.id,W,badPath,hangS*2,tr,fam,sig);
    if(rc>=2){ FILE*f=fopen(badPath.c_str(),"a"); writeFail(f,b.id,fam,rc==2?"crash":"hang",rc==2?("the process died (signal "+std::to_string(sig)+")"):"no answer within the time limit",tr); fclose(f); ++confirmed; }
    else if(rc==1) ++confirmed; else if(b.hang) ++slow; else ++unconfirmed;
    if(confirmed>=4||(confirmed&&b.hang)) break;
  }
  {
    std::ifstream f(failPath); std::string l; std::map<std::string,std::vector<uint64_t>> byKey; std::map<std::string,std::string> first;
    while(std::getline(f,l))
    {
      unsigned long long c=0; sscanf(l.c_str(),"{\"case\":%llu",&c);
      size_t k=l.find("\"key\":\""); size_t e=l.find('"',k+7); std::string key=l.substr(k+7,e-k-7);
      byKey[key].push_back(c); first.emplace(key,l); sawFail=true;
    }
    for(auto&kv: byKey)
    {
      std::sort(kv.second.begin(),kv.second.end());
      int n=0; const int before=confirmed;
      for(uint64_t c: kv.second){ if(n>=3) break; ++n; std::string tr,fam; int sig=0; int rc=rerun(fn,c,W,badPath,hangS*2,tr,fam,sig); if(rc==1) ++confirmed; else if(rc>=2){ FILE*g=fopen(badPath.c_str(),"a"); writeFail(g,c,fam,"crash","died on re-run",tr); fclose(g); ++confirmed; } else ++unconfirmed; }
      // a wrong result that depends on what ran before in the same process is a wrong result
      if(confirmed==before && kv.first!="exception")
      {
        std::string r=first[kv.first]; size_t m=r.find("\"msg\":\""); if(m!=std::string::npos) r.insert(m+7,"(seen in the sequence of cases, not when the case runs alone) ");
        FILE* g=fopen(badPath.c_str(),"a"); fprintf(g,"%s\n",r.c_str()); fclose(g); ++confirmed;
      }
    }
  }
  // aggregate
  Stats tot; std::vector<uint64_t> all,outs; std::vector<std::string> samples;
  for(int w=0;w<W;++w)
  {
    std::string base=outPrefix+"."+std::to_string(w);
    std::ifstream f(base+".stats"); Stats s; if(f>>s.cases>>s.transitions>>s.traces>>s.checks){ tot.cases+=s.cases; tot.transitions+=s.transitions; tot.traces+=s.traces; tot.checks+=s.checks; }
    std::string l; std::getline(f,l); while(std::getline(f,l)) if(samples.size()<6) samples.push_back(l);
    for(int k=0;k<2;++k)
    {
      FILE* g=fopen((base+(k?".out":".seen")).c_str(),"rb"); if(!g) continue;
      uint64_t v[4096]; size_t n; while((n=fread(v,8,4096,g))>0) (k?outs:all).insert((k?outs:all).end(),v,v+n); fclose(g);
      unlink((base+(k?".out":".seen")).c_str());
    }
    unlink((base+".stats").c_str());
  }
  for(auto*v: {&all,&outs}){ std::sort(v->begin(),v->end()); v->erase(std::unique(v->begin(),v->end()),v->end()); }
  FILE* o=fopen((out+".json").c_str(),"w");
  fprintf(o,"{\"cases\":%llu,\"transitions\":%llu,\"traces\":%llu,\"checks\":%llu,\"states\":%llu,\"outcomes\":%llu,\"confirmed\":%d,\"unconfirmed\":%d,\"stopped_early\":%s,\"lost_stats\":%s,\"longest_case_ms\":%llu,\"slow\":%d,\"samples\":[",
    (unsigned long long)tot.cases,(unsigned long long)tot.transitions,(unsigned long long)tot.traces,(unsigned long long)tot.checks,(unsigned long long)all.size(),(unsigned long long)outs.size(),confirmed,unconfirmed,
    (crashes>=12||sh->failures.load()>=2000)?"true":"false",lostStats?"true":"false",(unsigned long long)sh->longest.load(),slow);
  for(size_t i=0;i<samples.size();++i) fprintf(o,"%s\"%s\"",i?",":"",samples[i].c_str());
  fprintf(o,"]}\n"); fclose(o);
  (void)sawFail;
  return confirmed?1:0;
}
}
int main(int argc,char**argv){ return mc::mainImpl(argc,argv); }
