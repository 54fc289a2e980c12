#include "c14_common.hh"
// two elements with arbitrary boundary intersections
template<int dim> void boundary(std::vector<GeometryType> t) {
  vg::GridData<dim> d(t,0,{},true); vg::GridView<dim> gv(d); std::vector<Keys> a; for (auto x : t) a.push_back(everywhere<dim>(x));
  auto b=makeBasis(gv,BasisFactory::power<2>(keyLeaf<dim>(a),BasisFactory::blockedInterleaved()));
  u64 n=t.size(); std::vector<std::vector<u64>> want(n), got(n); std::vector<std::vector<std::vector<u64>>> wantFace(n), gotFace(n); std::vector<u64> wantIndex(b.dimension(),0), gotIndex(b.dimension(),0);
  auto v=b.localView(); auto flat=[](const auto& m) { return m[0]*2+m[1]; };
  for (u64 e=0;e<n;++e) { auto re=Dune::referenceElement<double,dim>(t[e]); v.bind(d.elements[e]); want[e].assign(v.size(),0); got[e].assign(v.size(),0); wantFace[e].assign(re.size(1),want[e]); gotFace[e].assign(re.size(1),want[e]);
    for (int f=0;f<re.size(1);++f) { bool bd=vp_split(vp_uf("boundary",0,1,e,f,0,0)); for (u64 c=0;c<2;++c) for (u64 i=0;i<a[e].size();++i) if (bd && within<dim>(t[e],a[e][i].subEntity(),a[e][i].codim(),f,1)) { u64 l=v.tree().child(c).localIndex(i); want[e][l]=wantFace[e][f][l]=1; wantIndex[flat(v.index(l))]=1; } } }
  auto check=[&](u64 l, const auto& w) { vp_assert(w.bound(),"views passed on are bound"); u64 e=w.element().id; vp_assert(e<n,"views are bound to an element of the grid view"); vp_assert(l<w.size(),"local indices are in the range of the view"); vp_assert(l<w.size() && flat(w.index(l))<b.dimension(),"the view gives the global index"); return e; };
  forEachBoundaryDOF(b,[&](auto l, const auto& w, const auto& is) { u64 e=check(l,w); got[e][l]=1; vp_assert(is.inside()==w.element(),"the intersection belongs to the element of the view"); gotFace[e][is.indexInInside()][l]=1; });
  for (u64 e=0;e<n;++e) { for (u64 l=0;l<want[e].size();++l) vp_assert(got[e][l]==want[e][l],"exactly the functions on boundary intersections are visited"); for (u64 f=0;f<wantFace[e].size();++f) for (u64 l=0;l<want[e].size();++l) vp_assert(gotFace[e][f][l]==wantFace[e][f][l],"functions are visited with their boundary intersections"); got[e].assign(want[e].size(),0); }
  forEachBoundaryDOF(b,[&](auto l, const auto& w) { u64 e=check(l,w); got[e][l]=1; });
  for (u64 e=0;e<n;++e) for (u64 l=0;l<want[e].size();++l) vp_assert(got[e][l]==want[e][l],"exactly the functions on boundary intersections are visited (view)");
  forEachBoundaryDOF(b,[&](const auto& m) { vp_assert(flat(m)<gotIndex.size(),"global indices are below the dimension"); gotIndex[flat(m)]=1; });
  for (u64 i=0;i<wantIndex.size();++i) vp_assert(gotIndex[i]==wantIndex[i],"exactly the global indices of functions on boundary intersections are visited");
  // restricted to a subspace only the functions of the subspace
  auto s=subspaceBasis(b,u64(1)); std::vector<u64> gs(b.dimension(),0); forEachBoundaryDOF(s,[&](const auto& m) { gs[flat(m)]=1; });
  for (u64 i=0;i<gs.size();++i) vp_assert(gs[i]==(i%2 ? wantIndex[i] : 0),"on a subspace exactly its boundary functions are visited");
}
VP_HARNESS(lines) { boundary<1>({line,line}); }
VP_HARNESS(triangles) { boundary<2>({triangle,triangle}); }
VP_HARNESS(mixed) { boundary<2>({quadrilateral,triangle}); }
VP_HARNESS(tet) { boundary<3>({tetrahedron}); }
VP_HARNESS(pyr) { boundary<3>({pyramid}); }
