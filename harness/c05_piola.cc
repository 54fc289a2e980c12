#include "c05_common.hh"
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
static bool upd() { return vp_split(vp_u64("updated",0,1)); }
static std::vector<GeometryType> T3() { const GeometryType t[]={tetrahedron,pyramid,prism,hexahedron}; u64 i=vp_split(vp_u64("i",0,3)), j=vp_split(vp_u64("j",0,3)); vp_assume(i<=j); return {t[i],t[j]}; }
static std::vector<GeometryType> T(GeometryType a, GeometryType b) { u64 i=vp_split(vp_u64("i",0,1)), j=vp_split(vp_u64("j",0,1)); vp_assume(i<=j); return {i?b:a,j?b:a}; }
VP_HARNESS(rt0_2) { leaf<2>(BasisFactory::raviartThomas<0>(),T(triangle,quadrilateral),upd(),{0}); }
VP_HARNESS(rt0_3) { leaf<3>(BasisFactory::raviartThomas<0>(),T3(),false,{0}); }
VP_HARNESS(rt1_tri) { leaf<2>(BasisFactory::raviartThomas<1>(),{triangle,triangle},upd(),{0}); }
VP_HARNESS(rt1_quad) { leaf<2>(BasisFactory::raviartThomas<1>(),{quadrilateral,quadrilateral},upd(),{0}); }
VP_HARNESS(bdm1_tri) { leaf<2>(BasisFactory::brezziDouglasMarini<1>(),{triangle,triangle},upd(),{0}); }
VP_HARNESS(bdm1_quad) { leaf<2>(BasisFactory::brezziDouglasMarini<1>(),{quadrilateral,quadrilateral},upd(),{0}); }
VP_HARNESS(bdm2_tri) { leaf<2>(BasisFactory::brezziDouglasMarini<2>(),{triangle,triangle},upd(),{0}); }
VP_HARNESS(bdm2_quad) { leaf<2>(BasisFactory::brezziDouglasMarini<2>(),{quadrilateral,quadrilateral},upd(),{0}); }
VP_HARNESS(ned2) { leaf<2>(BasisFactory::nedelec<1,1>(),T(triangle,quadrilateral),upd(),{0,2}); }
