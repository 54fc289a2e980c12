#include "c02_common.hh"
C02(co_flat,composite(flat<1>(c),flat<2>(c),flat<3>(c),flatLexicographic()))
C02(co_blocked,composite(flat<1>(c),flat<2>(c),flat<3>(c),blockedLexicographic()))
C02(co_one,composite(flat<1>(c),blockedLexicographic()))
C02(co_tuple,composite(flat<1>(c),power<2>(flat<2>(c),blockedInterleaved()),nested<3>(c),blockedLexicographic()))
C02(co_taylorhood,composite(power<2>(flat<1>(c),blockedInterleaved()),flat<2>(c)))
#define A(s) power<3>(composite(flat<1>(c),flat<2>(c),blockedLexicographic()),s)
C02ALL(pco,A)
#define DA(s) power(composite(flat<1>(c),flat<2>(c),blockedLexicographic()),(std::size_t)vp_split(vp_u64("children",1,3)),s)
C02ALL(dynco,DA)
