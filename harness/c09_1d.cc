#include "c09_common.hh"
#define P(n) vp_split(vp_u64("p",0,n))
#define N(a,b) vp_split(vp_u64("n",a,b))
VP_HARNESS(open1) { knotVector<1>(N(1,4),P(4),true,false); }
VP_HARNESS(plain1) { knotVector<1>(N(1,5),P(4),false,false); }
VP_HARNESS(positive1) { knotVector<1>(N(1,3),P(2),true,false,true); }
VP_HARNESS(repeated1) { knotVector<1>(N(1,3),P(2),false,true); }
VP_HARNESS(repeatedOpen1) { knotVector<1>(N(1,2),P(2),true,true); }
VP_HARNESS(box1) { box<1>({(unsigned)N(1,3)},P(3),vp_split(vp_u64("open",0,1))); }
VP_HARNESS(history1) { history<1>(P(2)); }
