#include "c01_common.hh"
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
// swap the digits of (a,b); shift flat indices
template<int depth> auto trafo(std::size_t shift) {
  return BasisFactory::Experimental::indexTransformation(
    [shift](auto& mi, const auto& pb) { if (mi.size()==2) { auto a=mi[0]; mi[0]=mi[1]; mi[1]=a+shift; } else mi[0]=mi[0]+shift; },
    [shift](const auto& prefix, const auto& pb) -> std::size_t { return vp_uf("tsize",0,1000,prefix.size(),prefix.size()>0 ? prefix[0] : 0,pb.n0(),shift); },
    [](const auto& pb) { return ContainerDescriptors::FlatVector(pb.n0()); },
    Dune::index_constant<1>{}, Dune::index_constant<depth>{});
}
template<class PB, class S> void check(PB pb, const S& sub, std::size_t shift) {
  vp::Element e{ vp_u64("element",0,1000) };
  pb.initializeIndices();
  vp_assert(pb.rawPreBasis().initialized_==1,"initialisation reaches the raw basis");
  auto node=pb.makeNode(); bindTree(node,e);
  using MI=Dune::ReservedVector<std::size_t,PB::multiIndexBufferSize>;
  std::vector<MI> mi(node.size()+1); MI guard; guard.push_back(77); mi[node.size()]=guard;
  auto end=pb.indices(node,mi.begin());
  vp_assert(end-mi.begin()==(std::ptrdiff_t)node.size(),"index generation advances by the node size"); vp_assert(eqMI(mi[node.size()],guard),"nothing is written beyond the node");
  for (std::size_t i=0;i<node.size();++i) {
    MI x; if (sub.len(e,i)==2) { x.push_back(sub.d1(e,i)); x.push_back(sub.d0(e,i)+shift); } else x.push_back(sub.d0(e,i)+shift);
    vp_assert(eqMI(mi[i],x),"each degree of freedom has the transformed index");
  }
  MI p; vp_assert((pb.size()==vp_uf("tsize",0,1000,0,0,sub.n0(),shift)) & (pb.size(p)==pb.size()),"size of the empty prefix is that of the transformation");
  p.push_back(5); vp_assert(pb.size(p)==vp_uf("tsize",0,1000,1,5,sub.n0(),shift),"size of a prefix is that of the transformation");
  vp_assert(pb.dimension()==sub.dimension(),"a bijective transformation does not change the dimension");
  vp_assert(pb.maxNodeSize()==sub.maxNodeSize(),"maximal node size of the raw basis");
  vp_assert(pb.containerDescriptor().size()==sub.n0(),"container descriptor of the transformation");
  vp::GridView gv2{99}; pb.update(gv2); vp_assert(pb.gridView().id==99,"update reaches the raw basis");
  vp_cover("transformed");
}
template<int depth> void run() {
  vp::GridView gv{ vp_u64("gv",0,10) }; vp::StubPreBasis<1,depth> sub(gv,vp_u64("inst",0,10)); std::size_t shift=vp_u64("shift",0,1000);
  check(BasisFactory::Experimental::transformIndices([&](const auto&) { return sub; },trafo<depth>(shift))(gv),sub,shift);
}
VP_HARNESS(t_flat) { run<1>(); }
VP_HARNESS(t_nested) { run<2>(); }
VP_HARNESS(t_in_power) {
  vp::GridView gv{ vp_u64("gv",0,10) }; vp::StubPreBasis<1,1> sub(gv,vp_u64("inst",0,10)); std::size_t shift=vp_u64("shift",0,1000);
  auto b=makeBasis(gv,power<2>(BasisFactory::Experimental::transformIndices([&](const auto&) { return sub; },trafo<1>(shift)),blockedLexicographic()));
  vp::Element e{ vp_u64("element",0,1000) }; auto v=b.localView(); v.bind(e);
  for (std::size_t c=0;c<2;++c) for (std::size_t i=0;i<v.tree().child(c).size();++i) {
    auto mi=v.index(v.tree().child(c).localIndex(i));
    vp_assert((mi.size()==2) & (mi[0]==c) & (mi[1]==sub.d0(e,i)+shift),"a transformed basis inside a power basis");
  }
  vp_cover("in power");
}
