// order given at run time, grids with a single element type
#include "grid.hh"
#include <dune/grid/common/capabilities.hh>
template<int d> struct Dune::Capabilities::hasSingleGeometryType<vg::Grid<d,d>> { static constexpr bool v=true; static constexpr unsigned int topologyId = SINGLE ? Dune::GeometryTypes::cube(d).id() : Dune::GeometryTypes::simplex(d).id(); };
#include "c04_common.hh"
#if SINGLE
static const GeometryType T2=quadrilateral, T3=hexahedron;
#else
static const GeometryType T2=triangle, T3=tetrahedron;
#endif
inline int order(int lo, int hi) { return vp_split(vp_u64("order",lo,hi)); }
