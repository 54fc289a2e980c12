#include "c01_common.hh"
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
using u64=std::uint64_t;
struct SubDomain { using GridView=vp::GridView; u64 id; GridView gridView() const { return {id}; } };
template<class Node> void checkNode(const Node& node, const vp::Element& e, std::size_t& treeIndex, std::size_t& offset, bool inside) {
  vp_assert(node.treeIndex()==treeIndex,"tree indices are consecutive"); ++treeIndex;
  std::size_t start=offset;
  if constexpr (std::is_base_of_v<LeafBasisNode,Node>) {
    if (inside) { vp_assert(node.size()==node.finiteElement().size(),"elements of the subdomain have all basis functions"); if (node.size()>0) vp_assert(node.element().id==e.id,"nodes are bound to the element"); }
    offset+=node.size();
  } else Dune::Hybrid::forEach(Dune::range(node.degree()),[&](auto i) { checkNode(node.child(i),e,treeIndex,offset,inside); });
  vp_assert(node.size()==offset-start,"a node covers exactly its children");
  if (!inside) vp_assert(node.size()==0,"elements outside of the subdomain have no basis functions");
  for (std::size_t i=0;i<node.size();++i) vp_assert(node.localIndex(i)==start+i,"local indices are contiguous");
}
template<class Base, class Op> void ops(const vp::GridView& gv, const SubDomain& sd, const Base& base, Op&& op) {
  vp::Element e{ vp_u64("element",0,1000) }, f{ vp_u64("other",0,1000) };
  bool inside=sd.gridView().contains(e);
  op(e,f,inside);
}
// restriction of any sub-basis: same functions and indices inside, nothing outside
template<class Factory> void alone(Factory&& factory) {
  vp::GridView gv{ vp_u64("gv",0,10) }; SubDomain sd{ vp_u64("subdomain",20,30) };
  auto ref=factory(sd.gridView());
  auto pb=Dune::Functions::Experimental::BasisFactory::restrict(factory,sd)(gv);
  pb.initializeIndices();
  using MI=Dune::ReservedVector<std::size_t,std::decay_t<decltype(pb)>::multiIndexBufferSize>;
  vp_assert(pb.gridView().id==gv.id,"the restricted basis lives on the host grid view");
  vp_assert((pb.size()==ref.size()) & (pb.dimension()==ref.dimension()) & (pb.maxNodeSize()==ref.maxNodeSize()) & (pb.size(MI{})==ref.size()),"sizes are those of the basis on the subdomain");
  vp::Element e{ vp_u64("element",0,1000) }, f{ vp_u64("other",0,1000) };
  bool inside=sd.gridView().contains(e);
  auto node=pb.makeNode(); initializeTree(node);
  if (vp_bool("rebind")) bindTree(node,f);
  std::size_t o=vp_u64("offset",0,100), t=0, o0=o;
  bindTree(node,e,o);
  checkNode(node,e,t,o,inside);
  vp_assert(&node.subDomain()==&sd,"nodes know the subdomain");
  std::vector<MI> mi(node.size()+1), x(ref.maxNodeSize()+1); MI guard; guard.push_back(77); mi[node.size()]=guard;
  auto end=pb.indices(node,mi.begin());
  vp_assert(end-mi.begin()==(std::ptrdiff_t)node.size(),"index generation advances by the node size"); vp_assert(eqMI(mi[node.size()],guard),"nothing is written beyond the node");
  if (inside) {
    auto r=ref.makeNode(); bindTree(r,e); vp_assert(r.size()==node.size(),"the same number of functions as on the subdomain");
    ref.indices(r,x.begin());
    for (std::size_t i=0;i<node.size();++i) vp_assert(eqMI(mi[i],x[i]),"the indices are those of the basis on the subdomain");
    vp_cover("inside");
  } else vp_cover("outside");
  vp::GridView gv2{99}; sd.id=vp_bool("subdomain changed") ? 98 : sd.id; pb.update(gv2); pb.initializeIndices(); auto now=factory(sd.gridView()); vp_assert((pb.gridView().id==99) & (pb.subDomainPreBasis().gridView().id==sd.id) & (pb.dimension()==now.dimension()) & (pb.size()==now.size()),"update uses the current grid views");
  auto node2=pb.makeNode(); initializeTree(node2); bindTree(node2,e); vp_assert(node2.size()==0 || sd.gridView().contains(e),"nodes made after an update use the current subdomain");
}
template<int tag> auto stub() { return [](const auto& gv) { return vp::StubPreBasis<tag,1,2>(gv,1); }; }
VP_HARNESS(r_leaf) { alone(stub<1>()); }
VP_HARNESS(r_power) { alone(power<2>(stub<1>(),blockedLexicographic())); }
VP_HARNESS(r_composite) { alone(composite(stub<1>(),power<2>(stub<2>(),flatInterleaved()),blockedLexicographic())); }
VP_HARNESS(r_dynamic) { alone(power(stub<1>(),2,flatLexicographic())); }
// several restrictions in one basis, through local views
VP_HARNESS(r_composed) {
  vp::GridView gv{1}; SubDomain a{20}, b{21};
  namespace RF=Dune::Functions::Experimental::BasisFactory;
  auto basis=makeBasis(gv,composite(RF::restrict(power<2>(stub<1>(),flatLexicographic()),a),stub<2>(),RF::restrict(stub<3>(),b),blockedLexicographic()));
  vp::Element e{ vp_u64("element",0,1000) }, f{ vp_u64("other",0,1000) };
  auto v=basis.localView();
  if (vp_bool("rebind")) { vp_assume(vp_uf("localSize",0,2,1,1,f.id,0)==2); vp_assume(vp_uf("localSize",0,2,2,1,f.id,0)==1); vp_assume(vp_uf("localSize",0,2,3,1,f.id,0)==1); v.bind(f); }
  v.bind(e);
  using namespace Dune::Indices;
  std::size_t t=1, o=0;
  checkNode(v.tree().child(_0),e,t,o,a.gridView().contains(e));
  checkNode(v.tree().child(_1),e,t,o,true);
  checkNode(v.tree().child(_2),e,t,o,b.gridView().contains(e));
  vp_assert(v.size()==o,"the view covers all functions");
  Dune::Hybrid::forEach(Dune::range(_3),[&](auto c) { const auto& n=v.tree().child(c); for (std::size_t i=0;i<n.size();++i) vp_assert(v.index(n.localIndex(i))[0]==c,"indices belong to their component"); });
  vp_cover("composed");
}
