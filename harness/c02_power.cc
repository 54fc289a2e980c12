#include "c02_common.hh"
#define P(s) power<2>(flat<1>(c),s)
C02ALL(p2,P)
#define P1(s) power<1>(flat<1>(c),s)
C02ALL(p1,P1)
#define D(s) power(flat<1>(c),(std::size_t)vp_split(vp_u64("children",1,3)),s)
C02ALL(dyn,D)
#define V(s) power<2>(nested<1>(c),s)
C02ALL(pv,V)
#define DV(s) power(nested<1>(c),(std::size_t)vp_split(vp_u64("children",1,2)),s)
C02ALL(dynv,DV)
// empty child bases
#define E(s) power<2>(flat<1,0>(c),s)
VP_HARNESS(e_fl) { descriptor([](bool c){ return E(flatLexicographic()); }); }
VP_HARNESS(e_fi) { descriptor([](bool c){ return E(flatInterleaved()); }); }
VP_HARNESS(e_bl) { descriptor([](bool c){ return E(blockedLexicographic()); }); }
VP_HARNESS(e_bi) { descriptor([](bool c){ return E(blockedInterleaved()); }); }
