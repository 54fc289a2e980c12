#include "c15_piola.hh"
#include <dune/grid/common/capabilities.hh>
template<int d> struct Dune::Capabilities::hasSingleGeometryType<vg::Grid<d,d>> { static constexpr bool v=true; static constexpr unsigned int topologyId = Dune::GeometryTypes::cube(d).id(); };
VP_HARNESS(nedHex) { transformed<3,true>(BasisFactory::nedelec<1,1>(),hexahedron,hexahedron,0,0,1); }
VP_HARNESS(circHex) { circulations<3>(BasisFactory::nedelec<1,1>(),hexahedron,hexahedron,3); }
VP_HARNESS(rt0Hex) { transformed<3,false>(BasisFactory::raviartThomas<0>(),hexahedron,hexahedron,vp_split(vp_u64("s0",0,5)),1); }
VP_HARNESS(rt1Hex) { transformed<3,false>(BasisFactory::raviartThomas<1>(),hexahedron,hexahedron,2,1); }
VP_HARNESS(rt2Quad) { transformed<2,false>(BasisFactory::raviartThomas<2>(),quadrilateral,quadrilateral,2,1); }
VP_HARNESS(fluxHex) { fluxes<3>(BasisFactory::raviartThomas<0>(),hexahedron,hexahedron,vp_split(vp_u64("s0",0,5)),1); }
