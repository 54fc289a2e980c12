#include "c01_common.hh"
using A = vp::StubPreBasis<1,2>;
using B = vp::StubPreBasis<2,1>;
using C = vp::StubPreBasis<3,2,1>;

template<class IMS, class PB, class... S> void composite(PB pb, const S&... subs) {
  vp::Element e{ vp_u64("element",0,1000000) };
  using MI = Dune::ReservedVector<std::size_t, PB::multiIndexBufferSize>;
  constexpr bool flat = std::is_same_v<IMS,FlatLexicographic>;
  pb.initializeIndices();
  auto node = pb.makeNode();
  bindTree(node, e);
  std::vector<MI> buf(node.size()+1);
  MI guard; guard.push_back(77);
  buf[node.size()] = guard;
  auto end = pb.indices(node, buf.begin());
  vp_assert(end-buf.begin()==(std::ptrdiff_t)node.size(), "index generation advances by exactly the node size");
  vp_assert(eqMI(buf[node.size()],guard), "index generation writes nothing beyond the node");
  std::size_t dim=0, root=0, total=0;
  auto subTuple = std::tie(subs...);
  Dune::Hybrid::forEach(std::make_index_sequence<sizeof...(S)>{}, [&](auto c) {
    const auto& sub = std::get<c>(subTuple);
    vp_assert(pb.subPreBasis(c).initialized_==1, "initialisation reaches every sub pre-basis");
    std::size_t m = node.child(c).size();
    for (std::size_t i=0;i<m;++i) {
      std::size_t l = node.child(c).localIndex(i);
      vp_assert(l==total+i, "local indices of the children are consecutive");
      std::size_t a=sub.d0(e,i); bool two=sub.len(e,i)==2;
      MI x; if (flat) x.push_back(root+a); else { x.push_back(c); x.push_back(a); }
      if (two) x.push_back(sub.d1(e,i));
      vp_assert(eqMI(buf[l],x), "multi-index of each (child, local index) is the one its merging strategy prescribes");
      validLeaf(pb,buf[l]);
      vp_cover("some index produced");
    }
    total += m; root += sub.n0(); dim += sub.dimension();
  });
  vp_assert(node.size()==total, "node size is the sum of the child sizes");
  for (std::size_t l=0;l<node.size();++l) for (std::size_t j=0;j<l;++j)
    vp_assert(!eqMI(buf[l],buf[j]), "distinct local indices get distinct multi-indices");
  vp_assert(pb.size()==(flat? root : sizeof...(S)), "root size of the merged index tree");
  vp_assert(pb.dimension()==dim, "dimension is the sum of the child dimensions");
  vp_assert(pb.maxNodeSize()>=node.size(), "maximal node size bounds every node size");
  vp::GridView gv2{ 99 };
  pb.update(gv2);
  vp_assert(pb.gridView().id==99, "update replaces the grid view of the whole basis");
  Dune::Hybrid::forEach(std::make_index_sequence<sizeof...(S)>{}, [&](auto c) {
    vp_assert(pb.subPreBasis(c).gridView().id==99, "update replaces the grid view of the whole basis");
  });
  vp_cover("end of composite");
}
template<class IMS, class PB, class... S> void onto(const PB& pb, const S&... subs) {
  using MI = Dune::ReservedVector<std::size_t, PB::multiIndexBufferSize>;
  constexpr bool flat = std::is_same_v<IMS,FlatLexicographic>;
  std::array<std::size_t,3> d{}; MI p; std::size_t len=0;
  for (; len<PB::maxMultiIndexSize; ++len) {
    std::size_t s = pb.size(p);
    if (s==0) break;
    d[len] = vp_u64("digit",0,vp::maxDigit*4); vp_assume(d[len]<s);
    p.push_back(d[len]);
  }
  auto subTuple = std::tie(subs...);
  bool found=false; std::size_t off=0;
  Dune::Hybrid::forEach(std::make_index_sequence<sizeof...(S)>{}, [&](auto c) {
    const auto& sub = std::get<c>(subTuple);
    bool mine; std::size_t a,b,l;
    if (flat) { mine = (len>0) && (d[0]>=off) && (d[0]<off+sub.n0()); a=d[0]-off; b=d[1]; l=len; }
    else { mine = (len>0) && (d[0]==c); a=d[1]; b=d[2]; l=len-1; }
    if (mine) {
      vp_assert(!found, "every leaf of the merged index tree belongs to one child"); found=true;
      if (l==0) vp_assert(sub.n0()==0, "an empty subtree only for an empty child");
      else {
        vp_assert(a<sub.n0(), "every leaf of the merged index tree is a leaf of the child's tree (first digit)");
        std::size_t s1=sub.n1(a);
        vp_assert(l == (s1==0 ? 1u : 2u), "every leaf of the merged index tree has the length of the child's leaf");
        if (l==2) vp_assert(b<s1, "every leaf of the merged index tree is a leaf of the child's tree (second digit)");
        vp_cover("leaf found");
      }
    }
    off+=sub.n0();
  });
  if (!found) vp_assert(flat && off==0, "every leaf of the merged index tree belongs to a child");
}
template<class IMS> void three() {
  vp::GridView gv{ vp_u64("gv",0,10) };
  A a(gv, 0); B b(gv, 0); C c(gv, 0);
  auto pb = BasisFactory::composite([&](const auto&){return a;},[&](const auto&){return b;},[&](const auto&){return c;},IMS{})(gv);
  if (vp_bool("indices")) composite<IMS>(pb,a,b,c); else onto<IMS>(pb,a,b,c);
}
template<class IMS> void one() {
  vp::GridView gv{ vp_u64("gv",0,10) };
  A a(gv, 0);
  auto pb = BasisFactory::composite([&](const auto&){return a;},IMS{})(gv);
  if (vp_bool("indices")) composite<IMS>(pb,a); else onto<IMS>(pb,a);
}
VP_HARNESS(composite_flat) { three<FlatLexicographic>(); }
VP_HARNESS(composite_blocked) { three<BlockedLexicographic>(); }
VP_HARNESS(composite1_flat) { one<FlatLexicographic>(); }
VP_HARNESS(composite1_blocked) { one<BlockedLexicographic>(); }
