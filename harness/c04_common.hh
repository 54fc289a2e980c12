#pragma once
#include "grid.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <array>
using namespace Dune::Functions; using namespace Dune::GeometryTypes;
using u64 = std::uint64_t; using Dune::GeometryType;

template<class B> using Gv = typename B::GridView;
// all global indices of the bound element
template<class V> std::vector<u64> indicesOf(const V& v) { std::vector<u64> r(v.size()); for (u64 i=0;i<v.size();++i) { vp_assert(v.index(i).size()==1,"indices are flat"); r[i]=v.index(i)[0]; } return r; }

// Lagrange nodes of a finite element: the nodal functionals applied to the coordinate functions
template<int dim, class FE> std::vector<Dune::FieldVector<double,dim>> nodesOf(const FE& fe) {
  std::vector<Dune::FieldVector<double,dim>> x(fe.size());
  for (int d=0;d<dim;++d) { std::vector<double> c; fe.localInterpolation().interpolate([&](const Dune::FieldVector<double,dim>& y){ return y[d]; }, c); for (u64 i=0;i<x.size();++i) x[i][d]=c[i]; }
  return x;
}
// weight of corner v in the multilinear parametrisation of a simplex or cube
template<int dim> double weight(GeometryType gt, int v, const Dune::FieldVector<double,dim>& x) {
  if (gt.isSimplex()) { if (v>0) return x[v-1]; double s=1; for (int d=0;d<dim;++d) s-=x[d]; return s; }
  double w=1; for (int d=0;d<dim;++d) w*= (v>>d)&1 ? x[d] : 1-x[d]; return w;
}
inline double absd(double x) { return x<0 ? -x : x; }

// one element: indices in range, distinct, dimension and sizes exact
// the vertex ids of element e are arbitrary distinct numbers, or (pin) ordered as the vertices are;
// that the other orders do not matter for what is then proved follows from 'sharing'
template<int dim> void nameVertices(vg::GridData<dim>& d, u64 e, bool pin) {
  int n=Dune::referenceElement<double,dim>(d.elements[e].gt).size(dim); auto& ids=d.grid.ids;
  for (int v=0;v<n;++v) { ids.vertexIds[e][v] = pin ? (e+1)*100+v : vp_u64("vertexId",1000,vg::maxIndex); if (!pin) for (int w=0;w<v;++w) vp_assume(ids.vertexIds[e][v]!=ids.vertexIds[e][w]); }
  ids.named=e+1;
}
template<int dim, class Factory> void numbering(const Factory& factory, GeometryType gt, std::vector<GeometryType> others={}, bool pin=false, bool updated=false) {
  vg::GridData<dim> d({gt},0,others,true), old({gt},1,{},true); vg::GridView<dim> gv(d); nameVertices(d,0,pin);
  auto b=makeBasis(updated ? vg::GridView<dim>(old) : gv,factory); if (updated) { b.update(gv); vp_assert(b.gridView().data==&d,"the basis refers to the new grid view after an update"); }
  auto v=b.localView(); v.bind(d.elements[0]);
  auto re=Dune::referenceElement<double,dim>(gt); const auto& fe=v.tree().finiteElement();
  auto ix=indicesOf(v); u64 n=v.size();
  vp_assert(n==fe.size() && n<=b.preBasis().maxNodeSize() && n<=v.maxSize(),"local size is that of the finite element and within the advertised maximum");
  for (u64 i=0;i<n;++i) {
    vp_assert(ix[i]<b.dimension(),"global indices are below the dimension");
    for (u64 j=0;j<i;++j) vp_assert(ix[i]!=ix[j],"distinct functions of an element have distinct indices");
  }
  vp_assert(b.size()==b.dimension(),"size of a flat basis is its dimension"); vp_assert(b.containerDescriptor().size()==b.dimension(),"containers of a flat basis have one entry per function");
  // the dimension counts the functions of this element's sub-entity types exactly
  if (others.empty()) {
    u64 s=0; for (int c=0;c<=dim;++c) for (const auto& t : gv.indexSet().types(c)) {
      int i0=-1; for (int i=0;i<re.size(c);++i) if (re.type(i,c)==t) i0=i;
      u64 cnt=0; for (u64 i=0;i<n;++i) { auto k=fe.localCoefficients().localKey(i); if ((int)k.codim()==c && (int)k.subEntity()==i0) ++cnt; }
      s+=cnt*gv.indexSet().size(t);
    }
    vp_assert(s==b.dimension(),"the dimension is the number of functions attached to all sub-entities");
  }
}
template<class V> int count(const V& v, const Dune::LocalKey& k) { int r=0; const auto& c=v.tree().finiteElement().localCoefficients(); for (u64 i=0;i<v.size();++i) if (c.localKey(i).subEntity()==k.subEntity() && c.localKey(i).codim()==k.codim()) ++r; return r; }
// two elements: functions attached to different sub-entities have different indices
template<int dim, class Factory> void separate(const Factory& factory, GeometryType g0, GeometryType g1) {
  vg::GridData<dim> d({g0,g1},0,{},true); vg::GridView<dim> gv(d); nameVertices(d,0,true); nameVertices(d,1,true);
  auto b=makeBasis(gv,factory); auto v0=b.localView(), v1=b.localView();
  v0.bind(d.elements[0]); v1.bind(d.elements[1]); auto i0=indicesOf(v0), i1=indicesOf(v1);
  auto r0=Dune::referenceElement<double,dim>(g0), r1=Dune::referenceElement<double,dim>(g1);
  for (u64 i=0;i<i0.size();++i) for (u64 j=0;j<i1.size();++j) {
    auto k0=v0.tree().finiteElement().localCoefficients().localKey(i), k1=v1.tree().finiteElement().localCoefficients().localKey(j);
    auto t0=r0.type(k0.subEntity(),k0.codim()), t1=r1.type(k1.subEntity(),k1.codim());
    if (t0!=t1) vp_assert(i0[i]!=i1[j],"functions on sub-entities of different type have different indices");
    else {
      bool same = gv.indexSet().raw(d.elements[0],k0.subEntity(),k0.codim())==gv.indexSet().raw(d.elements[1],k1.subEntity(),k1.codim());
      vp_assert(same | (i0[i]!=i1[j]),"functions on different sub-entities have different indices");
      if (count(v0,k0)==1 && count(v1,k1)==1) vp_assert(!same | (i0[i]==i1[j]),"the only function on a shared sub-entity has the same index on both elements");
    }
  }
}
// two elements sharing sub-entity s0 of e0 and s1 of e1 (codim c) with vertex v of s0 glued to vertex perm[v] of s1:
// indices agree exactly if the nodes coincide; the other vertices of e1 have larger ids than the shared ones
template<int dim, class Factory> void sharing(const Factory& factory, GeometryType g0, int s0, GeometryType g1, int s1, int c, std::array<int,4> perm, int pin0=0) {
  auto r0=Dune::referenceElement<double,dim>(g0), r1=Dune::referenceElement<double,dim>(g1);
  vg::GridData<dim> d({g0,g1},0,{},true); vg::GridView<dim> gv(d); auto& e0=d.elements[0]; auto& e1=d.elements[1];
  int nv=r0.size(s0,c,dim); auto& ids=d.grid.ids.vertexIds; d.grid.ids.named=2;
  nameVertices(d,0,false); d.grid.ids.named=2;
  auto on=[&](auto& r, int s, int v) { for (int w=0;w<nv;++w) if (r.subEntity(s,c,w,dim)==v) return true; return false; };
  if (pin0) for (int v=0;v<r0.size(dim);++v) if (!on(r0,s0,v)) ids[0][v] = (pin0==1 ? 2*vg::maxIndex : 0)+v;
  for (int v=0;v<r1.size(dim);++v) ids[1][v]=3*vg::maxIndex+v;
  for (int v=0;v<nv;++v) ids[1][r1.subEntity(s1,c,perm[v],dim)]=ids[0][r0.subEntity(s0,c,v,dim)];
  d.is.glue={true,c,s0,s1};
  auto b=makeBasis(gv,factory);
  // the nodes on the shared sub-entity, and which of them coincide
  std::vector<u64> on0, on1; std::vector<std::vector<int>> coincide;
  { auto n0=b.preBasis().makeNode(), n1=b.preBasis().makeNode(); n0.bind(e0); n1.bind(e1);
    const auto& f0=n0.finiteElement(); const auto& f1=n1.finiteElement(); auto x0=nodesOf<dim>(f0), x1=nodesOf<dim>(f1);
    for (u64 i=0;i<x0.size();++i) { auto k=f0.localCoefficients().localKey(i); if ((int)k.subEntity()==s0 && (int)k.codim()==c) on0.push_back(i); }
    for (u64 i=0;i<x1.size();++i) { auto k=f1.localCoefficients().localKey(i); if ((int)k.subEntity()==s1 && (int)k.codim()==c) on1.push_back(i); }
    u64 matched=0;
    for (u64 i : on0) { std::vector<int> r; for (u64 j : on1) {
      bool eq=true; for (int v=0;v<nv;++v) if (absd(weight<dim>(g0,r0.subEntity(s0,c,v,dim),x0[i])-weight<dim>(g1,r1.subEntity(s1,c,perm[v],dim),x1[j]))>1e-9) eq=false;
      if (eq) ++matched; r.push_back(eq); } coincide.push_back(r); }
    vp_assert(matched==on0.size() && on0.size()==on1.size(),"the nodes on a shared sub-entity are the nodes of the neighbour");
  }
  auto v0=b.localView(), v1=b.localView(); v0.bind(e0); v1.bind(e1); auto i0=indicesOf(v0), i1=indicesOf(v1);
  for (u64 i=0;i<on0.size();++i) for (u64 j=0;j<on1.size();++j)
    vp_assert((i0[on0[i]]==i1[on1[j]])==coincide[i][j],"functions on a shared sub-entity share their index exactly if their nodes coincide");
}
inline const std::array<int,4> id4{0,1,2,3};
// the symmetries of an edge, triangle, quadrilateral
inline std::vector<std::array<int,4>> symmetries(GeometryType gt) {
  if (gt.isLine()) return {{0,1,2,3},{1,0,2,3}};
  if (gt.isTriangle()) return {{0,1,2,3},{0,2,1,3},{1,0,2,3},{1,2,0,3},{2,0,1,3},{2,1,0,3}};
  return {{0,1,2,3},{1,0,3,2},{2,3,0,1},{3,2,1,0},{0,2,1,3},{2,0,3,1},{1,3,0,2},{3,1,2,0}};
}
// every sub-entity of codimension c of an element of type g0 of the type of sub-entity 0 of g1, glued to the latter in every way
template<int dim, class Factory> void sharingAll(const Factory& f, GeometryType g0, GeometryType g1, int c, int pin0=0) {
  auto r0=Dune::referenceElement<double,dim>(g0); auto t=Dune::referenceElement<double,dim>(g1).type(0,c);
  u64 s=vp_split(vp_u64("subEntity",0,r0.size(c)-1)); vp_assume(r0.type(s,c)==t);
  auto sym=symmetries(t); u64 p=vp_split(vp_u64("glue",0,sym.size()-1)); if (s>0) vp_assume(p==0);
  sharing<dim>(f,g0,s,g1,0,c,sym[p],pin0);
}
