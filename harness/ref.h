// Reference prediction by step-by-step integration (independent of the library).
#pragma once
#include "qp.h"
namespace ref
{
using qp::V; using qp::M;
enum Q { POS, VEL, ACC, JERK };
// rows i: value at sample i = s.row(i)*state + u.row(i)*commands ; order 3 (jerk) or 2 (acceleration)
struct Lin { M s,u; };
inline Lin preview(Q q,int N,double S,double T,int order=3)
{
  Lin l; l.s=M::Zero(N,order); l.u=M::Zero(N,N);
  for(int k=0;k<order+N;++k)
  {
    long double x[4]={0,0,0,0}; if(k<order) x[k]=1;
    for(int i=0;i<N;++i)
    {
      long double d= i==0? S: T, c= (k-order==i)?1:0;
      if(order==3){ x[0]+=x[1]*d+x[2]*d*d/2+c*d*d*d/6; x[1]+=x[2]*d+c*d*d/2; x[2]+=c*d; }
      else { x[0]+=x[1]*d+c*d*d/2; x[1]+=c*d; x[2]=c; }
      long double v= q==POS? x[0]: q==VEL? x[1]: q==ACC? x[2]: c;
      if(k<order) l.s(i,k)=(double)v; else l.u(i,k-order)=(double)v;
    }
  }
  return l;
}
inline void advance(V& s,double jerk,double d){ s(0)+=s(1)*d+s(2)*d*d/2+jerk*d*d*d/6; s(1)+=s(2)*d+jerk*d*d/2; s(2)+=jerk*d; }
}
