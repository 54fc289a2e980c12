#include "c02_common.hh"
#define A(s) power<2>(power<3>(flat<1>(c),blockedLexicographic()),s)
C02ALL(pa,A)
#define B(s) power<3>(power<2>(flat<1>(c),blockedInterleaved()),s)
C02ALL(pb,B)
#define DA(s) power(power<2>(flat<1>(c),blockedLexicographic()),(std::size_t)vp_split(vp_u64("children",1,2)),s)
C02ALL(dyna,DA)
#define DB(s) power<2>(power(flat<1>(c),(std::size_t)vp_split(vp_u64("children",1,2)),blockedLexicographic()),s)
C02ALL(dynb,DB)
