#include "grid.hh"
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using namespace Dune::Functions;
// unit normals of the faces of the reference element are those of dune-geometry; the distance of an inner
// point to face i is <c_i-x,n_i>/|n_i|
template<int dim, int dow> static void check(Dune::GeometryType gt) {
  using GV = vg::GridView<dim,dow>; using E = vg::Entity<0,dim,dow>; using X = Dune::FieldVector<double,dim>; using Y = Dune::FieldVector<double,dow>;
  vg::GridData<dim,dow> gd({}); GV gv(gd); E e{ vp_u64("e",0,vg::maxIndex), gt, 0 }, e2{ vp_u64("e",0,vg::maxIndex), gt, 0 };
  auto re=Dune::referenceElement<double,dim>(gt); const int n=re.size(1);
  int face=(int)vp_split(vp_u64("face",0,n-1)); auto op=vp_split(vp_u64("op",0,2));
  X x; for (int i=0;i<dim;++i) x[i]=vp_real("x");
  std::array<double,8> d;
  for (int f=0;f<n;++f) { auto nu=re.integrationOuterNormal(f); double s=0, q=0; auto c=re.position(f,1); for (int i=0;i<dim;++i) { s+=(c[i]-x[i])*nu[i]; q+=nu[i]*nu[i]; } d[f]=s/std::sqrt(q); vp_assume((0<=d[f]) & (d[f]<1e6)); }
  for (int f=0;f<n;++f) if (f!=face) vp_assume(d[face]<d[f]);
  auto expect=[&](const E& el) { auto nu=re.integrationOuterNormal(face); Y v(0); auto J=el.geometry().jacobianInverseTransposed(x); for (int i=0;i<dow;++i) for (int j=0;j<dim;++j) v[i]+=J[i][j]*nu[j]; double q=0; for (int i=0;i<dow;++i) q+=v[i]*v[i]; vp_assume(q>0); double s=std::sqrt(q); for (int i=0;i<dow;++i) v[i]/=s; return v; };
  FaceNormalGridFunction<GV> f(gv); vp_assert(f.entitySet().gridView().data==&gd,"the entity set is that of the grid view");
  auto l=localFunction(f); vp_assert(!l.bound(),"a new local function is not bound"); l.bind(e); vp_assert(l.bound(),"bound after bind"); vp_assert(l.localContext()==e,"the local context is the bound element");
  Y w=expect(e), w2=expect(e2), v=l(x); for (int i=0;i<dow;++i) vp_assert_eq(v[i],w[i],"the unit outer normal of the closest face, transformed covariantly");

  if (op==0) { l.bind(e2); v=l(x); for (int i=0;i<dow;++i) vp_assert_eq(v[i],w2[i],"normal after rebinding"); vp_assert(l.localContext()==e2,"context after rebinding"); }
  if (op==1) { auto c(l); l.unbind(); vp_assert(!l.bound() & c.bound(),"unbind"); v=c(x); for (int i=0;i<dow;++i) vp_assert_eq(v[i],w[i],"copies keep their element"); l=c; v=l(x); for (int i=0;i<dow;++i) vp_assert_eq(v[i],w[i],"assignment takes over the element"); }
  if (op==2) { GridViewFunction<Y(Y),GV> g(f); auto lg=localFunction(g); lg.bind(e2); v=lg(x); for (int i=0;i<dow;++i) vp_assert_eq(v[i],w2[i],"type-erased face normal"); }
  vp_cover("face normal");
}
VP_HARNESS(normal_line) { check<1,2>(Dune::GeometryTypes::line); }
VP_HARNESS(normal_triangle) { check<2,2>(Dune::GeometryTypes::triangle); }
VP_HARNESS(normal_quad) { check<2,3>(Dune::GeometryTypes::quadrilateral); }
VP_HARNESS(normal_tet) { check<3,3>(Dune::GeometryTypes::tetrahedron); }
VP_HARNESS(normal_prism) { check<3,3>(Dune::GeometryTypes::prism); }
VP_HARNESS(normal_pyramid) { check<3,3>(Dune::GeometryTypes::pyramid); }
