// prisms, pyramids, mixed 3d grids, intervals, updates and rejected orders
#include "c04_common.hh"
template<int k> void pair3() {
  const GeometryType t[]={tetrahedron,pyramid,prism,hexahedron}; u64 i=vp_split(vp_u64("i",0,3)), j=vp_split(vp_u64("j",0,3)); vp_assume(i<=j);
  separate<3>(BasisFactory::lagrange<k>(),t[i],t[j]);
}
template<int k> void one3() {
  const GeometryType t[]={tetrahedron,pyramid,prism,hexahedron}; u64 i=vp_split(vp_u64("i",0,3)), j=vp_split(vp_u64("j",0,4));
  if (j==4) numbering<3>(BasisFactory::lagrange<k>(),t[i],{},true); else { vp_assume(i!=j); numbering<3>(BasisFactory::lagrange<k>(),t[i],{t[j]},true); }
}
VP_HARNESS(num3d0) { one3<0>(); }
VP_HARNESS(num3d1) { one3<1>(); }
VP_HARNESS(num3d2) { one3<2>(); }
VP_HARNESS(sep3d0) { pair3<0>(); }
VP_HARNESS(sep3d1) { pair3<1>(); }
VP_HARNESS(sep3d2) { pair3<2>(); }
#define LINE(k) VP_HARNESS(numLine##k) { numbering<1>(BasisFactory::lagrange<k>(),line); } VP_HARNESS(sepLine##k) { separate<1>(BasisFactory::lagrange<k>(),line,line); }
LINE(0) LINE(1) LINE(2) LINE(3) LINE(4) LINE(6)
// orders the basis cannot number are rejected, for the element types of the grid view and after an update
template<int k> void rejects(GeometryType a, GeometryType b) {
  vg::GridData<3> d({a},0,{b},true); vg::GridView<3> gv(d); nameVertices(d,0,true);
  bool bad=gv.size(prism)>0 || gv.size(pyramid)>0; bool thrown=false;
  try { auto basis=makeBasis(gv,BasisFactory::lagrange<k>()); } catch (const Dune::RangeError&) { thrown=true; }
  vp_assert(thrown==bad,"a basis is rejected exactly if the grid has elements its order does not support");
  vg::GridData<3> c({tetrahedron},1,{},true); auto basis=makeBasis(vg::GridView<3>(c),BasisFactory::lagrange<k>()); thrown=false;
  try { basis.update(gv); } catch (const Dune::RangeError&) { thrown=true; }
  vp_assert(thrown==bad,"an update is rejected exactly if the grid has elements the order does not support");
}
VP_HARNESS(reject) { const GeometryType t[]={tetrahedron,pyramid,prism,hexahedron}; rejects<3>(t[vp_split(vp_u64("i",0,3))],t[vp_split(vp_u64("j",0,3))]); }
