#include "c02_common.hh"
#define T(s) power<3>(composite(flat<1>(c),power<2>(flat<2>(c),blockedInterleaved()),blockedLexicographic()),s)
C02ALL(pt,T)
#define DT(s) power(composite(flat<1>(c),power<2>(flat<2>(c),blockedInterleaved()),blockedLexicographic()),(std::size_t)vp_split(vp_u64("children",1,2)),s)
C02(dynt_bl,DT(blockedLexicographic()))
C02(dynt_bi,DT(blockedInterleaved()))
