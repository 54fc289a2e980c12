#include "c05_common.hh"
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
static bool upd() { return vp_split(vp_u64("updated",0,1)); }
#define SIMPLEX(name,f) VP_HARNESS(name##1) { leaf<1>(BasisFactory::f,{line,line},upd()); } VP_HARNESS(name##2) { leaf<2>(BasisFactory::f,{triangle,triangle},upd()); } VP_HARNESS(name##3) { leaf<3>(BasisFactory::f,{tetrahedron,tetrahedron},upd()); }
SIMPLEX(refined0,refinedLagrange<0>()) SIMPLEX(refined1,refinedLagrange<1>())
SIMPLEX(hierarchical1,hierarchicalLagrange<1>()) SIMPLEX(hierarchical2,hierarchicalLagrange<2>())
SIMPLEX(bubble1,hierarchicalP1B()) SIMPLEX(bubble2,hierarchicalP2B())
static std::vector<GeometryType> T(GeometryType a, GeometryType b) { u64 i=vp_split(vp_u64("i",0,1)), j=vp_split(vp_u64("j",0,1)); vp_assume(i<=j); return {i?b:a,j?b:a}; }
VP_HARNESS(rannacher2) { leaf<2>(BasisFactory::rannacherTurek(),T(triangle,quadrilateral),upd()); }
VP_HARNESS(rannacher3) { leaf<3>(BasisFactory::rannacherTurek(),T(tetrahedron,hexahedron),upd()); }
