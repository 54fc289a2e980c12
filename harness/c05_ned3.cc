// Nedelec in 3d, grids with a single element type (the code selects other branches than for mixed grids)
#include "grid.hh"
#include <dune/grid/common/capabilities.hh>
template<int d> struct Dune::Capabilities::hasSingleGeometryType<vg::Grid<d,d>> { static constexpr bool v=true; static constexpr unsigned int topologyId = Dune::GeometryTypes::simplex(d).id(); };
#include "c05_common.hh"
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
static bool upd() { return vp_split(vp_u64("updated",0,1)); }
VP_HARNESS(ned3) { leaf<3>(BasisFactory::nedelec<1,1>(),{tetrahedron,tetrahedron},upd(),{0,3}); }
VP_HARNESS(ned2s) { leaf<2>(BasisFactory::nedelec<1,1>(),{triangle,triangle},upd(),{0,2}); }
VP_HARNESS(rt0s) { leaf<2>(BasisFactory::raviartThomas<0>(),{triangle,triangle},upd(),{0}); }
VP_HARNESS(rt0s3) { leaf<3>(BasisFactory::raviartThomas<0>(),{tetrahedron,tetrahedron},upd(),{0}); }
