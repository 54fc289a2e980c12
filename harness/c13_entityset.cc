// the entity set of a grid function is the set of elements of its grid view
#include "grid.hh"
#include <dune/functions/gridfunctions/gridviewentityset.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using namespace Dune::Functions; using namespace Dune::GeometryTypes; using u64=std::uint64_t;
template<class S, int dim> void isSet(const S& s, const vg::GridData<dim>& d, const vg::GridData<dim>& o) {
  u64 n=0; bool same=true; for (const auto& e : s) { same&=n<d.elements.size() && e==d.elements[n]; ++n; vp_assert(s.contains(e)==vg::GridView<dim>(d).contains(e),"contains() is that of the grid view"); }
  vp_assert(same & (n==d.elements.size()),"iteration visits each element of the grid view once"); vp_assert(s.size()==(u64)vg::GridView<dim>(d).size(0),"the size is the number of elements of the grid view"); vp_assert(s.gridView().data==&d,"the entity set has its grid view");
  for (const auto& e : o.elements) vp_assert(s.contains(e)==vg::GridView<dim>(d).contains(e),"contains() is that of the grid view"); }
VP_HARNESS(entitySet) {
  u64 n=vp_split(vp_u64("n",1,3)); std::vector<Dune::GeometryType> t(n,triangle); vg::GridData<2> d(t,0,{},true), o({triangle,quadrilateral},1,{},true); vg::GridView<2> gv(d), ov(o); using X=Dune::FieldVector<double,2>;
  GridViewEntitySet<vg::GridView<2>,0> s(gv); isSet(s,d,o); auto c=s; GridViewEntitySet<vg::GridView<2>,0> a(ov); isSet(a,o,d); a=s; isSet(c,d,o); isSet(a,d,o);
  auto f=makeAnalyticGridViewFunction([](const X& x){ return x[0]; },gv); isSet(f.entitySet(),d,o); auto g=makeComposedGridFunction([](double x){ return x; },f); isSet(g.entitySet(),d,o); isSet(FaceNormalGridFunction(gv).entitySet(),d,o);
  auto h=makeGridViewFunction([](const X& x){ return x[0]; },gv); isSet(h.entitySet(),d,o);
}
