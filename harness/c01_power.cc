#include "c01_common.hh"
template<class IMS, class PB> void power(PB& pb, const Sub& sub, std::size_t k) {
  vp::Element e{ vp_u64("element",0,1000000) };
  using MI = Dune::ReservedVector<std::size_t, PB::multiIndexBufferSize>;
  pb.initializeIndices();
  vp_assert(pb.subPreBasis().initialized_==1, "initialisation reaches the sub pre-basis");
  auto node = pb.makeNode();
  bindTree(node, e);
  std::size_t m = node.child(0).size();
  vp_assert(node.size()==k*m, "node size is the sum of the child sizes");
  std::vector<MI> buf(node.size()+1);
  MI guard; guard.push_back(77);
  buf[node.size()] = guard;
  auto end = pb.indices(node, buf.begin());
  vp_assert(end-buf.begin()==(std::ptrdiff_t)node.size(), "index generation advances by exactly the node size");
  vp_assert(eqMI(buf[node.size()],guard), "index generation writes nothing beyond the node");
  for (std::size_t c=0;c<k;++c) for (std::size_t i=0;i<m;++i) {
    std::size_t l = node.child(c).localIndex(i);
    std::size_t a = sub.d0(e,i); bool two = sub.len(e,i)==2;
    MI x = spec<MI>(IMS{},k,sub.n0(),c,a,two,sub.d1(e,i));
    vp_assert(eqMI(buf[l],x), "multi-index of each (child, local index) is the one its merging strategy prescribes");
    validLeaf(pb,buf[l]);
    vp_cover("some index produced");
  }
  for (std::size_t l=0;l<node.size();++l) for (std::size_t j=0;j<l;++j)
    vp_assert(!eqMI(buf[l],buf[j]), "distinct local indices get distinct multi-indices");
  vp_assert(pb.dimension()==k*sub.dimension(), "dimension is the number of children times the child dimension");
  vp_assert(pb.maxNodeSize()>=node.size(), "maximal node size bounds every node size");
  vp_assert(pb.size()==pb.size(MI{}), "size() is the size of the empty prefix");
  vp::GridView gv2{ 99 };
  pb.update(gv2);
  vp_assert((pb.gridView().id==99) & (pb.subPreBasis().gridView().id==99), "update replaces the grid view of the whole basis");
  vp_cover("end of power");
}

// every leaf of the merged index tree (as reported by size(prefix)) is the
// image of exactly one (child, leaf of the child's index tree)
template<class IMS> std::array<std::size_t,4> split(std::size_t k, std::size_t n0, std::size_t len, const std::array<std::size_t,3>& d) {
  if constexpr (std::is_same_v<IMS,FlatLexicographic>) return { d[0]/n0, d[0]%n0, d[1], len };
  else if constexpr (std::is_same_v<IMS,FlatInterleaved>) return { d[0]%k, d[0]/k, d[1], len };
  else if constexpr (std::is_same_v<IMS,BlockedLexicographic>) return { d[0], d[1], d[2], len-1 };
  else return { d[len-1], d[0], d[1], len-1 };
}
template<class IMS, class PB> void onto(const PB& pb, const Sub& sub, std::size_t k) {
  using MI = Dune::ReservedVector<std::size_t, PB::multiIndexBufferSize>;
  std::array<std::size_t,3> d{}; MI p; std::size_t len=0;
  for (; len<PB::maxMultiIndexSize; ++len) {
    std::size_t s = pb.size(p);
    if (s==0) break;
    d[len] = vp_u64("digit",0,vp::maxDigit*4); vp_assume(d[len]<s);
    p.push_back(d[len]);
  }
  if (sub.n0()==0) { vp_assert(len < PB::minMultiIndexSize, "no leaf in the index tree of an empty basis"); return; }
  if (len==0) { vp_assert((k==0) | (sub.n0()==0), "an empty index tree only for an empty basis"); return; }
  vp_assert(pb.size(p)==0, "no index tree path is longer than the advertised maximal length");
  vp_assert(len>=PB::minMultiIndexSize, "no leaf above the advertised minimal length");
  auto [c,a,b,l] = split<IMS>(k,sub.n0(),len,d);
  vp_assert(c<k, "every leaf of the merged index tree belongs to a child");
  vp_assert(a<sub.n0(), "every leaf of the merged index tree is a leaf of the child's tree (first digit)");
  std::size_t s1=sub.n1(a);
  vp_assert(l == (s1==0 ? 1u : 2u), "every leaf of the merged index tree has the length of the child's leaf");
  if (l==2) vp_assert(b<s1, "every leaf of the merged index tree is a leaf of the child's tree (second digit)");
  vp_cover("leaf found");
}
template<class IMS, int k> void staticPower() {
  vp::GridView gv{ vp_u64("gv",0,10) };
  Sub sub(gv, vp_u64("inst",0,10));
  auto factory = [&](const auto&) { return sub; };
  auto pb = BasisFactory::power<k>(factory, IMS{})(gv);
  if (vp_bool("indices")) power<IMS>(pb,sub,k); else onto<IMS>(pb,sub,k);
}
template<class IMS> void dynamicPower() {
  vp::GridView gv{ vp_u64("gv",0,10) };
  Sub sub(gv, vp_u64("inst",0,10));
  std::size_t k = vp_split(vp_u64("k",1,3));
  auto factory = [&](const auto&) { return sub; };
  auto pb = BasisFactory::power(factory, k, IMS{})(gv);
  if (vp_bool("indices")) power<IMS>(pb,sub,k); else onto<IMS>(pb,sub,k);
}
VP_HARNESS(power_flat_lexicographic) { staticPower<FlatLexicographic,3>(); }
VP_HARNESS(power_flat_interleaved) { staticPower<FlatInterleaved,2>(); }
VP_HARNESS(power_blocked_lexicographic) { staticPower<BlockedLexicographic,2>(); }
VP_HARNESS(power_blocked_interleaved) { staticPower<BlockedInterleaved,3>(); }
VP_HARNESS(dynpower_flat_lexicographic) { dynamicPower<FlatLexicographic>(); }
VP_HARNESS(dynpower_flat_interleaved) { dynamicPower<FlatInterleaved>(); }
VP_HARNESS(dynpower_blocked_lexicographic) { dynamicPower<BlockedLexicographic>(); }
VP_HARNESS(dynpower_blocked_interleaved) { dynamicPower<BlockedInterleaved>(); }
VP_HARNESS(power_flat_lexicographic1) { staticPower<FlatLexicographic,1>(); }
VP_HARNESS(power_blocked_interleaved1) { staticPower<BlockedInterleaved,1>(); }
