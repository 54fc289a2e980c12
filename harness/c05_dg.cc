#include "c05_common.hh"
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
static std::vector<GeometryType> T3() { const GeometryType t[]={tetrahedron,pyramid,prism,hexahedron}; u64 i=vp_split(vp_u64("i",0,3)), j=vp_split(vp_u64("j",0,3)); vp_assume(i<=j); return {t[i],t[j]}; }
static std::vector<GeometryType> T2() { const GeometryType t[]={triangle,quadrilateral}; u64 i=vp_split(vp_u64("i",0,1)), j=vp_split(vp_u64("j",0,1)); vp_assume(i<=j); return {t[i],t[j]}; }
static bool upd() { return vp_split(vp_u64("updated",0,1)); }
#define DG(k) VP_HARNESS(dg1_##k) { leaf<1>(BasisFactory::lagrangeDG<k>(),{line,line},upd(),{},Where{true}); } VP_HARNESS(dg2_##k) { leaf<2>(BasisFactory::lagrangeDG<k>(),T2(),upd(),{},Where{true}); }
DG(0) DG(1) DG(2) DG(3) DG(4)
VP_HARNESS(dg3_0) { leaf<3>(BasisFactory::lagrangeDG<0>(),T3(),upd(),{},Where{true}); }
VP_HARNESS(dg3_1) { leaf<3>(BasisFactory::lagrangeDG<1>(),T3(),upd(),{},Where{true}); }
VP_HARNESS(dg3_2) { leaf<3>(BasisFactory::lagrangeDG<2>(),T3(),upd(),{},Where{true}); }
