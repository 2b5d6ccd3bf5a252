// Small stateless model-checking runtime: a check enumerates *cases* (complete
// histories / inputs) in a fixed order; the cases are distributed over forked
// workers; a case that fails, crashes (assert, abort, signal) or hangs is
// re-run alone before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <unordered_set>
#include <atomic>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <stdexcept>

namespace mc
{
struct Fail { std::string key, msg; };

struct Stats { uint64_t cases=0, transitions=0, traces=0, checks=0; };

struct Ctx
{
  bool thorough=false;
  bool replaying=false;
  uint64_t counter=0;       // global case number
  uint64_t claimed=0;
  uint64_t only=UINT64_MAX; // when re-running one case
  Stats st;
  std::unordered_set<uint64_t> seen;      // distinct states (hash)
  std::unordered_set<uint64_t> outcomes;  // distinct observed outcomes
  std::vector<std::string> samples;
  std::vector<std::string> trace;         // description of the case under way
  std::string family;
};
extern Ctx ctx;

bool beginCase();                 // true if this worker takes the next case
void endCase();
void runCase(const std::function<void()>& f);

// enumerate f(0..n-1) as cases
template<class F> void cases(const char* family, uint64_t n, F f)
{
  ctx.family=family;
  for(uint64_t i=0;i<n;++i)
    if(beginCase()) runCase([&]{ f(i); });
}
template<class F> void oneCase(const char* family, F f)
{
  ctx.family=family;
  if(beginCase()) runCase([&]{ f(); });
}

[[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf,2,3)));
void report(const std::string& key, const char* fmt, ...) __attribute__((format(printf,2,3)));  // record a failure and go on
void note(const char* fmt, ...) __attribute__((format(printf,1,2)));   // history of the case
void clearNotes();                     // forget the notes of an execution that passed
void sample();                        // keep the present case's trace as a sample

inline void transition(uint64_t n=1){ ctx.st.transitions+=n; }
inline void traceDone(uint64_t n=1){ ctx.st.traces+=n; }
inline void checked(uint64_t n=1){ ctx.st.checks+=n; }
inline void state(uint64_t h){ ctx.seen.insert(h); }
inline void outcome(uint64_t h){ ctx.outcomes.insert(h); }

struct Hash
{
  uint64_t h=1469598103934665603ull;
  void raw(const void* p,size_t n){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;++i){ h^=c[i]; h*=1099511628211ull; } }
  Hash& operator()(uint64_t v){ raw(&v,sizeof v); return *this; }
  Hash& d(double v){ // quantised
    long long q = (std::isfinite(v)&&std::fabs(v)<1e12)? (long long)std::llround(v*1e6) : (v>0?INT64_MAX:INT64_MIN);
    raw(&q,sizeof q); return *this; }
  template<class V> Hash& vec(const V& v){ (*this)((uint64_t)v.size()); for(int i=0;i<(int)v.size();++i) d((double)v(i)); return *this; }
};

// mixed-radix decoding of case numbers
struct Radix
{
  uint64_t v; explicit Radix(uint64_t i):v(i){}
  int operator()(int base){ int r=(int)(v%base); v/=base; return r; }
};
inline uint64_t ipow(uint64_t b,int e){ uint64_t r=1; while(e-->0) r*=b; return r; }

inline bool near(double a,double b,double tol){ return std::fabs(a-b)<=tol*(1.0+std::max(std::fabs(a),std::fabs(b))); }

typedef void (*CheckFn)();
struct Reg { Reg(const char* id, CheckFn f); };
int mainImpl(int argc,char**argv);
}
#define MC_CHECK(id) static void check_##id(); static mc::Reg reg_##id(#id, check_##id); static void check_##id()
