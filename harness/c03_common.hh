#pragma once
#include "stubs.hh"
#include <optional>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;
using namespace Dune::Indices;
using u64 = std::uint64_t;
template<int tag> using Sub = vp::StubPreBasis<tag,1,2>;

// the specification of a bound local ansatz tree, by structural recursion
template<class Node> constexpr bool isLeaf = std::is_base_of_v<LeafBasisNode,Node>;
template<class Node> void checkNode(const Node& node, const vp::Element& e, std::size_t& treeIndex, std::size_t& offset) {
  vp_assert(node.treeIndex()==treeIndex, "tree indices number all nodes consecutively");
  ++treeIndex;
  std::size_t start = offset;
  if constexpr (isLeaf<Node>) {
    vp_assert(node.size()==node.finiteElement().size(), "a leaf node has the size of its finite element");
    vp_assert(node.element().id==e.id, "every leaf node is bound to the element");
    offset += node.size();
    vp_cover("leaf visited");
  }
  else {
    Dune::Hybrid::forEach(Dune::range(node.degree()), [&](auto i) { checkNode(node.child(i),e,treeIndex,offset); });
    vp_assert(node.size()==offset-start, "an inner node covers exactly its children");
    vp_assert(node.element().id==e.id, "every inner node knows the element");
  }
  vp_assert(node.empty()==(node.size()==0), "empty() means that the size is zero");
  for (std::size_t i=0;i<node.size();++i)
    vp_assert(node.localIndex(i)==start+i, "local indices are contiguous in depth-first order");
}
template<class MI, class MJ> bool eqMI(const MI& a, const MJ& b) {
  if (a.size()!=b.size()) return false;
  bool r = true; for (std::size_t i=0;i<a.size();++i) r = r & (a[i]==b[i]);
  return r;
}
template<class View, class PB> void checkRootView(const View& view, const PB& pb, const vp::Element& e) {
  vp_assert(view.bound(), "a bound view says that it is bound");
  vp_assert(view.element().id==e.id, "a bound view knows its element");
  std::size_t t=0, o=0;
  checkNode(view.tree(),e,t,o);
  vp_assert(view.size()==o, "the local indices of the leaf nodes cover 0..size-1");
  vp_assert(view.maxSize()>=view.size(), "no view is larger than its maximal size");
  auto node = pb.makeNode();
  bindTree(node,e);
  using MI = Dune::ReservedVector<std::size_t, PB::multiIndexBufferSize>;
  std::vector<MI> buf(node.size());
  pb.indices(node,buf.begin());
  vp_assert(buf.size()==view.size(), "the view has one index per basis function");
  for (std::size_t i=0;i<buf.size();++i)
    vp_assert(eqMI(view.index(i),buf[i]), "the i-th multi-index is the one the basis assigns to local index i");
}
template<class Basis> void viewOps(const Basis& basis, int nops=6) {
  const auto& pb = basis.preBasis();
  vp_assert(&basis.rootBasis()==&basis,"a global basis is its own root basis");
  vp::Element e{ vp_u64("element",0,1000) }, f{ vp_u64("element2",0,1000) };
  vp_assume(e.id!=f.id);
  using View = typename Basis::LocalView;
  u64 op = vp_split(vp_u64("op",0,7));
  switch (op) {
  case 0: { auto v=basis.localView(); vp_assert(!v.bound(),"a new view is unbound"); v.bind(e); checkRootView(v,pb,e); vp_assert(&v.globalBasis()==&basis,"the view knows its basis"); vp_assert(&v.rootLocalView()==&v, "the root view is the view itself"); break; }
  case 1: { auto v=basis.localView(); v.bind(f); v.bind(e); checkRootView(v,pb,e); break; }
  case 2: { auto v=basis.localView(); v.bind(f); v.unbind(); vp_assert(!v.bound(),"an unbound view says so"); { auto w=v; vp_assert(!w.bound(),"the copy of an unbound view is unbound"); } v.bind(e); checkRootView(v,pb,e); break; }
  case 3: { auto v=basis.localView(); v.bind(e); auto w=v; v.bind(f); checkRootView(w,pb,e); break; }
  case 4: { std::optional<View> v(basis.localView()); v->bind(e); View w(std::move(*v)); v.reset(); checkRootView(w,pb,e); break; }
  case 5: { std::optional<View> v(basis.localView()); v->bind(e); auto w=basis.localView(); w.bind(f); w=*v; v->bind(f); checkRootView(w,pb,e); checkRootView(*v,pb,f); v.reset(); checkRootView(w,pb,e); break; }
  case 6: { auto v=basis.localView(); v.bind(e); auto w=basis.localView(); w=v; w=std::move(w); w.bind(f); checkRootView(v,pb,e); break; }
  case 7: { auto v=basis.localView(), w=basis.localView(); w.bind(f); w=v; vp_assert(!w.bound(),"a view assigned from an unbound one is unbound"); w.bind(e); checkRootView(w,pb,e); break; }
  }
  vp_cover("view operation");
}
template<class RootBasis, class SB, class Child> void subspaceView(const RootBasis& basis, const SB& sb, Child&& child) {
  const auto& pb = basis.preBasis();
  vp_assert(&basis.rootBasis()==&basis,"a global basis is its own root basis");
  vp::Element e{ vp_u64("element",0,1000) }, f{ vp_u64("element2",0,1000) };
  vp_assume(e.id!=f.id);
  auto check = [&](const auto& w) {
    checkRootView(w.rootLocalView(),pb,e);
    vp_assert(w.bound() & (w.element().id==e.id), "a subspace view is bound to the element");
    vp_assert(static_cast<const void*>(&w.tree())==static_cast<const void*>(&child(w.rootLocalView().tree())), "the tree of a subspace view is the subtree of its prefix path");
    vp_assert(w.size()==w.rootLocalView().size(), "local indices of a subspace refer to the root");
    vp_assert(w.maxSize()==w.rootLocalView().maxSize(), "the maximal size of a subspace view is the one of the root");
    for (std::size_t i=0;i<w.tree().size();++i) {
      std::size_t l=w.tree().localIndex(i);
      vp_assert(eqMI(w.index(l),w.rootLocalView().index(l)), "multi-indices of a subspace view are those of the root basis");
    }
  };
  vp_assert(&sb.rootBasis()==&basis, "a subspace basis refers to the root basis");
  vp_assert((sb.dimension()==basis.dimension()) & (sb.size()==basis.size()), "sizes of a subspace basis are those of the root basis");
  auto v = sb.localView();
  vp_assert(!v.bound(), "a new subspace view is unbound");
  vp_assert(&v.globalBasis()==&sb, "a subspace view knows its basis");
  if (vp_bool("rebind")) v.bind(f);
  v.bind(e);
  check(v);
  auto w = v;
  v.bind(f);
  check(w);
  v.unbind(); vp_assert(!v.bound(), "an unbound subspace view says so");
  v = w;
  w.bind(f);
  check(v);
  vp_cover("subspace view");
}
template<int tag> auto sub(const vp::GridView& gv) { return [pb=Sub<tag>(gv,vp_u64("inst",0,3))](const auto&) { return pb; }; }
