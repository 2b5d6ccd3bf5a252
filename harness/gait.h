// Reference gait schedule, in exact integer time: one sampling period is R ticks.
#pragma once
#include "mc.h"
namespace gait
{
enum { DS=0, LEFT=1, RIGHT=2 };
struct Gait
{
  int N=1,R=1,step=2,ds=2;       // horizon; ticks per sampling period; durations in ticks
  bool move=false;
  int type=DS,ttn=2,dur=2;       // phase under way, time it still lasts, its duration
  bool movedThen=false;          // the command at the last update: it decides what follows the phase under way...
  bool planned=false;            // ... if the horizon of that update reached the end of the phase
  // schedule of the present cycle
  int S=0,M=0; std::vector<int> col,kind,support; bool dropped=false,changed=false;
  static int follow(int t,bool mv){ return t==DS? (mv?LEFT:DS) : mv? (t==LEFT?RIGHT:LEFT) : DS; }
  int lasts(int t) const { return t==DS?ds:step; }
  void setStep(int p){ if(type!=DS){ ttn+=p-step; dur+=p-step; } step=p; }
  bool canSetStep(int p) const { return type==DS || ttn+p-step>0; }
  void setDs(int p){ if(type==DS){ ttn+=p-ds; dur+=p-ds; } ds=p; }
  bool canSetDs(int p) const { return type!=DS || ttn+p-ds>=0; }
  void update()
  {
    dropped=changed=false;
    if(ttn==0){ dropped= type!=DS; type=follow(type,planned?movedThen:move); ttn=dur=lasts(type); changed=true; }
    movedThen=move; planned= ttn<=N*R;
    S=ttn%R; if(S==0) S=R;
    // phases over the horizon: (start of the next one, its kind)
    col.assign(N,-1); kind.assign(N,type); support.clear(); M=0;
    int t=type, e=ttn;
    for(int i=0;i<N;++i)
    {
      int ti=S+i*R;
      while(e<=ti){ if(t!=DS){ support.push_back(t); ++M; } t=follow(t,move); e+=lasts(t); }
      col[i]=M-1; kind[i]=t;
    }
  }
  bool flying() const { return type!=DS && ttn<=dur-R; }     // at the start of a cycle
  void pass(int fb){ ttn-=fb; }
};
inline const char* name(int t){ return t==DS?"double support":t==LEFT?"left support":"right support"; }
}
