// helpers of the library for counting, averaging and orienting (implementation namespace)
#include "grid.hh"
#include <cmath>
#include <dune/functions/common/mapperutilities.hh>
using namespace Dune::GeometryTypes; using u64=std::uint64_t; using Dune::GeometryType; namespace I=Dune::Functions::Impl;
// any layout: the indices of an element are exactly those of its sub-entities
template<int dim> void indices(GeometryType t) {
  vg::GridData<dim> d({t},0,{},true); vg::GridView<dim> gv(d); std::vector<std::vector<u64>> n(dim+1);
  for (int c=0;c<=dim;++c) for (u64 i=0;i<gv.indexSet().types(c).size();++i) n[c].push_back(vp_split(vp_u64("count",0,c==1 ? 2 : 1)));
  auto count=[&](GeometryType g) { u64 r=0; int c=dim-g.dim(); for (u64 i=0;i<n[c].size();++i) if (gv.indexSet().types(c)[i]==g) r=n[c][i]; return r; };
  Dune::MultipleCodimMultipleGeomTypeMapper<vg::GridView<dim>> m(gv,[&](GeometryType g, int) -> std::size_t { return count(g); });
  I::MapperElementSubIndices<vg::GridView<dim>> s(m); s.bind(d.elements[0]); s.bind(d.elements[0]);
  auto re=Dune::referenceElement<double,dim>(t); u64 want=0, got=0; std::vector<u64> all; for (u64 i : s) { all.push_back(i); ++got; }
  for (int c=0;c<=dim;++c) for (int k=0;k<re.size(c);++k) for (u64 j=0;j<count(re.type(k,c));++j) { ++want; u64 w=m.subIndex(d.elements[0],k,c)+j; bool in=false; for (u64 i : all) in|=i==w; vp_assert(in,"the indices of every sub-entity of the element are listed"); }
  vp_assert(got==want,"nothing else is listed, nothing twice");
}
VP_HARNESS(indicesLine) { indices<1>(line); }
VP_HARNESS(indicesTriangle) { indices<2>(triangle); }
VP_HARNESS(indicesQuadrilateral) { indices<2>(quadrilateral); }
VP_HARNESS(indicesPrism) { indices<3>(prism); }
// vertices numbered in any way: the mesh size at a vertex is the root of the mean volume of its elements
template<int dim> void meshSize(GeometryType t, u64 shared) {
  vg::GridData<dim> d({t,t},0,{},true); int nv=Dune::referenceElement<double,dim>(t).size(dim); auto& is=d.is; is.table[dim].assign(2,std::vector<std::size_t>(nv)); is.tableSize[dim]=2*nv-shared;
  for (int i=0;i<nv;++i) { is.table[dim][0][i]=i; is.table[dim][1][i]=nv-shared+i; }
  // permute the vertices of both elements
  for (u64 e=0;e<2;++e) for (int i=0;i<nv-1;++i) std::swap(is.table[dim][e][i],is.table[dim][e][i+vp_split(vp_u64("swap",0,nv-1-i))]);
  vg::GridView<dim> gv(d); Dune::MultipleCodimMultipleGeomTypeMapper<vg::GridView<dim>> m(gv,Dune::mcmgVertexLayout());
  auto h=I::computeAverageSubEntityMeshSize<double>(m); double A[2]={d.elements[0].geometry().volume(),d.elements[1].geometry().volume()};
  vp_assert(h.size()==m.size(),"one mesh size per index");
  for (u64 i=0;i<h.size();++i) { double s=0; u64 n=0; for (u64 e=0;e<2;++e) for (int k=0;k<nv;++k) if (is.table[dim][e][k]==i) { s+=A[e]; ++n; } vp_assert_eq(h[i],std::pow(s/n,1./dim),"the mesh size at a vertex is the root of the mean volume of the adjacent elements"); }
}
VP_HARNESS(meshSizeLine) { meshSize<1>(line,vp_split(vp_u64("shared",0,1))); }
VP_HARNESS(meshSizeTriangle) { meshSize<2>(triangle,vp_split(vp_u64("shared",0,2))); }
VP_HARNESS(meshSizeTetrahedron) { meshSize<3>(tetrahedron,3); }
// an edge is flipped exactly if its first vertex has the larger id
VP_HARNESS(orientations) {
  vg::GridData<2> d({triangle,triangle},0,{},true); d.is.fixed[0]=true; vg::GridView<2> gv(d); Dune::MultipleCodimMultipleGeomTypeMapper<vg::GridView<2>> m(gv,Dune::mcmgElementLayout());
  auto o=I::computeEdgeOrientations(m); vp_assert(o.size()==2,"one entry per element"); auto re=Dune::referenceElement<double,2>(triangle);
  for (u64 e=0;e<2;++e) for (int i=0;i<3;++i) { u64 a=gv.grid().globalIdSet().subId(d.elements[e],re.subEntity(i,1,0,2),2), b=gv.grid().globalIdSet().subId(d.elements[e],re.subEntity(i,1,1,2),2); vp_assert(o[m.index(d.elements[e])][i]==(a>b),"an edge is flipped exactly if its first vertex has the larger id"); }
}
