#pragma once
#include "grid.hh"
#include <dune/localfunctions/common/localkey.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
using namespace Dune::Functions; using namespace Dune::GeometryTypes; using u64=std::uint64_t; using Dune::GeometryType;
// where the functions live: as the finite element says, or all in the interior of the element
struct Where { bool interior=false, edges=false; template<class V> Dune::LocalKey operator()(const V& v, u64 i) const { return interior ? Dune::LocalKey(0,0,i) : v.tree().finiteElement().localCoefficients().localKey(i); } };
template<class V> u64 countAt(const V& v, Where w, u64 c, u64 s) { u64 r=0; for (u64 i=0;i<v.size();++i) { auto k=w(v,i); if (k.codim()==c && k.subEntity()==s) ++r; } return r; }
// precondition of bases that normalise edges: no edge of an element is degenerate
template<int dim> void properEdges(const vg::GridData<dim>& d) {
  for (const auto& e : d.elements) { auto re=Dune::referenceElement<double,dim>(e.gt); auto g=e.geometry();
    for (int i=0;i<re.size(dim-1);++i) { auto t=g.global(re.position(re.subEntity(i,dim-1,1,dim),dim))-g.global(re.position(re.subEntity(i,dim-1,0,dim),dim)); vp_assume(t.two_norm2()>0); } } }
// elements of the given types (one or two): every property of a numbering by sub-entities;
// fixed codimensions have fixed entity numbers (those the basis stores data for), all other entity numbers are arbitrary
template<int dim, class Factory> void leaf(const Factory& factory, std::vector<GeometryType> types, bool updated=false, std::vector<int> fixed={}, Where where={}) {
  vg::GridData<dim> d(types,0,{},true), old({types[0]},1,{},true);
  for (int c : fixed) d.is.fixed[c]=old.is.fixed[c]=true;
  vg::GridView<dim> gv(d); if (where.edges) { properEdges(d); properEdges(old); }
  auto b=makeBasis(updated ? vg::GridView<dim>(old) : gv,factory);
  if (updated) { auto v=b.localView(); v.bind(old.elements[0]); b.update(gv); }
  vp_assert(b.gridView().data==&d,"the basis refers to its grid view");
  u64 n=types.size(); std::vector<decltype(b.localView())> v; std::vector<std::vector<u64>> ix(n);
  for (u64 e=0;e<n;++e) v.push_back(b.localView());
  u64 total=0;
  for (u64 e=0;e<n;++e) {
    v[e].bind(d.elements[e]); u64 m=v[e].size(); auto re=Dune::referenceElement<double,dim>(types[e]);
    vp_assert(m==v[e].tree().finiteElement().size() && m==v[e].tree().finiteElement().localCoefficients().size() && m<=b.preBasis().maxNodeSize() && m<=v[e].maxSize(),"local size is that of the finite element and within the advertised maximum");
    u64 attached=0; for (int c=0;c<=dim;++c) for (int s=0;s<re.size(c);++s) attached+=countAt(v[e],where,c,s);
    vp_assert(attached==m,"every function is attached to a sub-entity of its element");
    for (u64 i=0;i<m;++i) {
      vp_assert(v[e].index(i).size()==1,"indices are flat"); ix[e].push_back(v[e].index(i)[0]);
      vp_assert(ix[e][i]<b.dimension(),"global indices are below the dimension");
      for (u64 j=0;j<i;++j) vp_assert(ix[e][i]!=ix[e][j],"distinct functions of an element have distinct indices");
    }
  }
  vp_assert(b.size()==b.dimension(),"size of a flat basis is its dimension");  vp_assert(b.containerDescriptor().size()==b.dimension(),"containers of a flat basis have one entry per function");
  for (int c=0;c<=dim;++c) for (const auto& t : gv.indexSet().types(c)) {
    u64 cnt=~u64(0);
    for (u64 e=0;e<n;++e) { auto re=Dune::referenceElement<double,dim>(types[e]); for (int s=0;s<re.size(c);++s) if (re.type(s,c)==t) { u64 k=countAt(v[e],where,c,s); vp_assert(cnt==~u64(0) || cnt==k,"sub-entities of a type carry the same number of functions"); cnt=k; } }
    total+=cnt*gv.indexSet().size(t);
  }
  vp_assert(total==b.dimension(),"the dimension is the number of functions attached to all sub-entities");
  if (n==2) { auto r0=Dune::referenceElement<double,dim>(types[0]), r1=Dune::referenceElement<double,dim>(types[1]);
    for (u64 i=0;i<ix[0].size();++i) for (u64 j=0;j<ix[1].size();++j) {
      auto k0=where(v[0],i), k1=where(v[1],j);
      if (k0.codim()!=k1.codim() || r0.type(k0.subEntity(),k0.codim())!=r1.type(k1.subEntity(),k1.codim())) { vp_assert(ix[0][i]!=ix[1][j],"functions on sub-entities of different type have different indices"); continue; }
      bool same = gv.indexSet().raw(d.elements[0],k0.subEntity(),k0.codim())==gv.indexSet().raw(d.elements[1],k1.subEntity(),k1.codim());
      if (k0.index()==k1.index()) vp_assert((ix[0][i]==ix[1][j])==same,"a function has the same index on two elements exactly if they share its sub-entity");
      else vp_assert(ix[0][i]!=ix[1][j],"different functions of a sub-entity have different indices");
    } }
}
