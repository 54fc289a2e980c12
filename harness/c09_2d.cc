#include "c09_common.hh"
#define P(n) vp_split(vp_u64("p",0,n))
VP_HARNESS(open2) { knotVector<2>(vp_split(vp_u64("n",1,2)),P(3),true,false); }
VP_HARNESS(plain2) { knotVector<2>(3,P(2),false,false); }
VP_HARNESS(repeated2) { knotVector<2>(2,P(1),false,true); }
VP_HARNESS(box2) { box<2>({3,2},P(2),vp_split(vp_u64("open",0,1))); }
VP_HARNESS(open3) { knotVector<3>(2,P(1),true,false); }
VP_HARNESS(box3) { box<3>({1,2,3},1,true); }
VP_HARNESS(history2) { history<2>(P(2)); }
VP_HARNESS(boxKeys) { box<2>({5,4},2,false); }
