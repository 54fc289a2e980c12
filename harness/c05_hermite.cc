#include "c05_common.hh"
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
static bool upd() { return vp_split(vp_u64("updated",0,1)); }
VP_HARNESS(hermite1) { leaf<1>(BasisFactory::cubicHermite(),{line,line},upd(),{1}); }
VP_HARNESS(hermite2) { leaf<2>(BasisFactory::cubicHermite(),{triangle,triangle},upd(),{2}); }
VP_HARNESS(hermite3) { leaf<3>(BasisFactory::cubicHermite(),{tetrahedron,tetrahedron},upd(),{3}); }
VP_HARNESS(reduced2) { leaf<2>(BasisFactory::reducedCubicHermite(),{triangle,triangle},upd(),{2}); }
VP_HARNESS(morley) { leaf<2>(BasisFactory::morley(),{triangle,triangle},upd(),{0},{false,true}); }
VP_HARNESS(argyris) { leaf<2>(BasisFactory::argyris(),{triangle,triangle},upd(),{0,2},{false,true}); }
