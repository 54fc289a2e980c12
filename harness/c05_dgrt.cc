// order given at run time, grids with a single element type: lines, triangles and hexahedra
#include "grid.hh"
#include <dune/grid/common/capabilities.hh>
template<int d> struct Dune::Capabilities::hasSingleGeometryType<vg::Grid<d,d>> { static constexpr bool v=true; static constexpr unsigned int topologyId = d==3 ? Dune::GeometryTypes::cube(d).id() : Dune::GeometryTypes::simplex(d).id(); };
#include "c05_common.hh"
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
static bool upd() { return vp_split(vp_u64("updated",0,1)); }
static unsigned order(u64 hi) { return vp_split(vp_u64("order",1,hi)); }
template<int dim> void runtime(GeometryType t, unsigned k) { leaf<dim>(BasisFactory::lagrangeDG(k),{t,t},upd(),{},Where{true});
  vg::GridData<dim> d({t},2,{},true); vg::GridView<dim> gv(d); auto b=makeBasis(gv,BasisFactory::lagrangeDG(k)); auto v=b.localView(); v.bind(d.elements[0]); vp_assert((b.preBasis().order()==k) & (v.tree().finiteElement().localBasis().order()==k),"the order is the one requested"); }
VP_HARNESS(dgrt1) { runtime<1>(line,order(4)); }
VP_HARNESS(dgrt2) { runtime<2>(triangle,order(4)); }
VP_HARNESS(dgrt3) { runtime<3>(hexahedron,order(2)); }
