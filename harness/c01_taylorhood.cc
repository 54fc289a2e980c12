// Taylor-Hood: composite of a vector of second order and a scalar of first order Lagrange bases, blocked by component
#include "grid.hh"
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
using namespace Dune::Functions; using namespace Dune::GeometryTypes; using namespace Dune::Indices; using u64=std::uint64_t; using Dune::GeometryType;
template<class B, int dim> void check(const B& b, const vg::GridData<dim>& d, bool hybrid, u64 e) {
  vg::GridView<dim> gv(d); auto q2=makeBasis(gv,BasisFactory::lagrange<2>()); auto q1=makeBasis(gv,BasisFactory::lagrange<1>()); u64 n2=q2.dimension(), n1=q1.dimension();
  vp_assert(b.gridView().data==&d,"the basis refers to its grid view");
  vp_assert((b.dimension()==dim*n2+n1) & (b.size()==2),"the dimension is that of the components combined");
  auto v=b.localView(); auto w=q2.localView(); auto p=q1.localView(); v.bind(d.elements[e]); w.bind(d.elements[e]); p.bind(d.elements[e]);
  vp_assert((v.size()==dim*w.size()+p.size()) & (v.size()<=v.maxSize()) & (v.tree().size()==v.size()),"the local size is that of the components combined and within the advertised maximum");
  using M=typename B::MultiIndex; typename B::SizePrefix s; s.resize(0); vp_assert(b.size(s)==2,"the first digit selects velocity or pressure");
  s.resize(1); s[0]=0; vp_assert(b.size(s)==(hybrid ? n2 : dim*n2),"number of velocity indices"); s[0]=1; vp_assert(b.size(s)==n1,"number of pressure indices");
  auto leaf=[&](const M& i) { typename B::SizePrefix x; x.resize(0); bool ok=true; for (u64 k=0;k<i.size();++k) { ok&=i[k]<b.size(x); x.push_back(i[k]); } return ok & (b.size(x)==0); };
  for (int c=0;c<dim;++c) for (u64 i=0;i<w.size();++i) { const auto& node=v.tree().child(_0,c); u64 l=node.localIndex(i); vp_assert(l==c*w.size()+i,"functions of the velocity are numbered component by component"); auto m=v.index(l);
    vp_assert(m.size()==(hybrid ? 3u : 2u),"length of velocity indices"); vp_assert(m[0]==0,"velocity comes first");
    if (hybrid) vp_assert((m[1]==w.index(i)[0]) & (m[2]==u64(c)),"velocity index is the Lagrange index followed by the component"); else vp_assert(m[1]==w.index(i)[0]*dim+c,"velocity index interleaves the components");
    vp_assert(leaf(m),"every multi-index is a leaf of the index tree"); }
  for (u64 i=0;i<p.size();++i) { u64 l=v.tree().child(_1).localIndex(i); vp_assert(l==dim*w.size()+i,"functions of the pressure come last"); auto m=v.index(l); vp_assert((m.size()==2) & (m[0]==1) & (m[1]==p.index(i)[0]),"pressure index is the Lagrange index"); vp_assert(leaf(m),"every multi-index is a leaf of the index tree"); }
  const auto cd=b.preBasis().containerDescriptor(); vp_assert(cd.size()==2,"descriptor lists velocity and pressure"); vp_assert((cd[_0].size()==(hybrid ? n2 : dim*n2)) & (cd[_1].size()==n1),"descriptor has the sizes of the index tree");
  if constexpr(requires { cd[_0][0].size(); }) vp_assert(cd[_0][0].size()==(hybrid ? u64(dim) : 0),"blocks of the velocity have one entry per component");
  vp_assert(v.tree().element().id==d.elements[e].id,"bound to the element");
}
template<int dim, bool hybrid> void taylorHood(std::vector<GeometryType> types) {
  vg::GridData<dim> d(types,0,{},true), o({types[0]},1,{},true); vg::GridView<dim> gv(d), old(o); u64 e=vp_split(vp_u64("element",0,types.size()-1));
  using B=DefaultGlobalBasis<TaylorHoodPreBasis<vg::GridView<dim>,hybrid>>;
  if (vp_split(vp_u64("updated",0,1))) { B b(old); { auto v=b.localView(); v.bind(o.elements[0]); } b.update(gv); check(b,d,hybrid,e); }
  else { B b(gv); auto c=b; check(c,d,hybrid,e); }
}
VP_HARNESS(th1) { taylorHood<1,false>({line,line}); }
VP_HARNESS(th2) { taylorHood<2,false>({triangle,quadrilateral}); }
VP_HARNESS(th3) { taylorHood<3,false>({tetrahedron,hexahedron}); }
VP_HARNESS(th1h) { taylorHood<1,true>({line,line}); }
VP_HARNESS(th2h) { taylorHood<2,true>({triangle,quadrilateral}); }
VP_HARNESS(th3h) { taylorHood<3,true>({pyramid,prism}); }
VP_HARNESS(factory) { vg::GridData<2> d({triangle},0,{},true); vg::GridView<2> gv(d); auto b=makeBasis(gv,BasisFactory::taylorHood()); check(b,d,false,0); TaylorHoodBasis<vg::GridView<2>> c(gv); check(c,d,false,0); }
