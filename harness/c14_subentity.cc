#include "c14_common.hh"
// every sub-entity of an element: the range is exactly the set of functions attached to it or to its sub-entities
template<int dim, class D, class V> void exact(const D& dofs, const V& v, GeometryType t, int I, int C) {
  std::vector<u64> hit(v.size(),0); u64 expected=0;
  for (u64 i : dofs) { vp_assert(i<v.size(),"reported functions are local functions of the view"); ++hit[i]; }
  Dune::TypeTree::forEachLeafNode(v.tree(),[&](auto&& node, auto&&) { if (node.empty()) return; for (u64 i=0;i<node.size();++i) { auto k=node.finiteElement().localCoefficients().localKey(i); bool in=within<dim>(t,k.subEntity(),k.codim(),I,C); u64 l=node.localIndex(i); expected+=in;
    vp_assert(hit[l]==(in ? 1u : 0u),"exactly the functions attached to the sub-entity or to its sub-entities are reported, once");
    vp_assert(dofs.contains(l)==in,"contains() agrees with the reported functions"); } });
  vp_assert(dofs.size()==expected,"the number of reported functions");
  u64 n=0; for (u64 i : dofs) { vp_assert(dofs[n]==i,"access by position agrees with the iteration"); ++n; }
  vp_assert(n==expected,"the iteration visits all of them");
}
template<int dim, class V> void all(V& v, GeometryType t) { auto re=Dune::referenceElement<double,dim>(t); auto dofs=subEntityDOFs(v.globalBasis().gridView()); for (int C=0;C<=dim;++C) for (int I=0;I<re.size(C);++I) { auto& r=dofs.bind(v,I,C); vp_assert(&r==&dofs,"bind returns the object"); exact<dim>(dofs,v,t,I,C); exact<dim>(subEntityDOFs(v,I,C),v,t,I,C); } 
  auto byBasis=subEntityDOFs(v.globalBasis()); for (int f=0;f<re.size(1);++f) { vg::Intersection<dim,dim> is{v.element(),f,0,nullptr}; exact<dim>(byBasis.bind(v,is),v,t,f,1); exact<dim>(subEntityDOFs(v,is),v,t,f,1); } }
template<int dim> void single(GeometryType t) {
  vg::GridData<dim> d({t},0,{},true); vg::GridView<dim> gv(d); std::vector<Keys> a{everywhere<dim>(t)};
  auto b=makeBasis(gv,keyLeaf<dim>(a)); auto v=b.localView(); v.bind(d.elements[0]); all<dim>(v,t);
}
template<int dim> void any(GeometryType t) {
  vg::GridData<dim> d({t},0,{},true); vg::GridView<dim> gv(d); std::vector<Keys> a{some<dim>(t,1)}, e{{}}, c{Keys{Dune::LocalKey(0,0,0),Dune::LocalKey(1,dim,0),Dune::LocalKey(0,1,0)}};
  auto b=makeBasis(gv,BasisFactory::composite(BasisFactory::power<2>(keyLeaf<dim>(a),BasisFactory::flatInterleaved()),keyLeaf<dim,1>(e),keyLeaf<dim,2>(c),BasisFactory::flatLexicographic())); auto v=b.localView(); v.bind(d.elements[0]); all<dim>(v,t);
  auto s=subspaceBasis(b,_0); auto w=s.localView(); w.bind(d.elements[0]); auto k=a[0][0]; auto re=Dune::referenceElement<double,dim>(t);
  for (int C=0;C<=dim;++C) for (int I=0;I<re.size(C);++I) { auto dofs=subEntityDOFs(w,I,C); vp_assert(dofs.size()==(within<dim>(t,k.subEntity(),k.codim(),I,C) ? 2u : 0u),"views of a subspace report the functions of the subspace only"); }
}
VP_HARNESS(line) { single<1>(line); any<1>(line); }
VP_HARNESS(triangle) { single<2>(triangle); any<2>(triangle); }
VP_HARNESS(quadrilateral) { single<2>(quadrilateral); any<2>(quadrilateral); }
VP_HARNESS(tetrahedron) { single<3>(tetrahedron); any<3>(tetrahedron); }
VP_HARNESS(pyramid) { single<3>(pyramid); }
VP_HARNESS(pyramidAny) { any<3>(pyramid); }
VP_HARNESS(prism) { single<3>(prism); }
VP_HARNESS(prismAny) { any<3>(prism); }
VP_HARNESS(hexahedron) { single<3>(hexahedron); }
VP_HARNESS(hexahedronAny) { any<3>(hexahedron); }
// two functions anywhere, one object bound again and again: nothing is left over from the previous binding
VP_HARNESS(rebind) {
  vg::GridData<2> d({triangle,quadrilateral},0,{},true); vg::GridView<2> gv(d); std::vector<Keys> a{some<2>(triangle,2),some<2>(quadrilateral,1)};
  auto b=makeBasis(gv,keyLeaf<2>(a)); auto v=b.localView(); auto dofs=subEntityDOFs(gv);
  u64 first=vp_split(vp_u64("first",0,1)); v.bind(d.elements[first]); dofs.bind(v,vp_split(vp_u64("i",0,2)),1);
  auto t=first ? triangle : quadrilateral; v.bind(d.elements[1-first]); dofs.bind(v,1,2); exact<2>(dofs,v,t,1,2); dofs.bind(v,2,1); exact<2>(dofs,v,t,2,1);
}
