#include "c15_piola.hh"
#include <dune/grid/common/capabilities.hh>
template<int d> struct Dune::Capabilities::hasSingleGeometryType<vg::Grid<d,d>> { static constexpr bool v=true; static constexpr unsigned int topologyId = Dune::GeometryTypes::simplex(d).id(); };
VP_HARNESS(nedTet) { transformed<3,true>(BasisFactory::nedelec<1,1>(),tetrahedron,tetrahedron,0,0,vp_split(vp_u64("numbering",0,4))); }
VP_HARNESS(circTet) { circulations<3>(BasisFactory::nedelec<1,1>(),tetrahedron,tetrahedron,vp_split(vp_u64("numbering",0,4))); }
VP_HARNESS(nedTri) { transformed<2,true>(BasisFactory::nedelec<1,1>(),triangle,triangle,0,0,vp_split(vp_u64("numbering",0,4))); }
VP_HARNESS(rt1Tri) { transformed<2,false>(BasisFactory::raviartThomas<1>(),triangle,triangle,vp_split(vp_u64("s0",0,2)),1); }
VP_HARNESS(rt0Tet) { transformed<3,false>(BasisFactory::raviartThomas<0>(),tetrahedron,tetrahedron,vp_split(vp_u64("s0",0,3)),1); }
VP_HARNESS(fluxTri) { fluxes<2>(BasisFactory::raviartThomas<0>(),triangle,triangle,vp_split(vp_u64("s0",0,2)),1); }
VP_HARNESS(fluxTet) { fluxes<3>(BasisFactory::raviartThomas<0>(),tetrahedron,tetrahedron,vp_split(vp_u64("s0",0,3)),1); }
