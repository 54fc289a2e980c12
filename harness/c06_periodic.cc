#include "stubs.hh"
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
using namespace Dune::Functions;
using u64=std::uint64_t;
// a basis with n indices; the element has one function per index
struct Node : LeafBasisNode {
  using Element=vp::Element; using FiniteElement=vp::FE; using size_type=std::size_t;
  const Element& element() const { return *e; } const FiniteElement& finiteElement() const { return fe; }
  void bind(const Element& x) { e=&x; fe.n=n; this->setSize(n); }
  std::size_t n=0; const Element* e=nullptr; vp::FE fe;
};
struct Raw {
  using GridView=vp::GridView; using size_type=std::size_t; using Node=::Node;
  static constexpr size_type maxMultiIndexSize=1, minMultiIndexSize=1, multiIndexBufferSize=1;
  GridView gv; std::size_t n; int initialized=0;
  Raw(const GridView& g, std::size_t m) : gv(g), n(m) {}
  void initializeIndices() { ++initialized; }
  const GridView& gridView() const { return gv; }
  void update(const GridView& g) { gv=g; }
  Node makeNode() const { Node x; x.n=n; return x; }
  size_type size() const { vp_assert(initialized>0,"the raw basis is initialised before its size is used"); return n; }
  template<class P, decltype(std::declval<P>().size(), bool{}) = true> size_type size(const P& p) const { return p.size()==0 ? size() : 0; }
  size_type dimension() const { return size(); }
  size_type maxNodeSize() const { return n; }
  template<class It> It indices(const Node& node, It it) const { for (std::size_t i=0;i<node.size();++i,++it) *it={{ n-1-i }}; return it; }
  auto containerDescriptor() const { return ContainerDescriptors::FlatVector(n); }
};
template<int N, int pairs, class Make> void check(Make&& make, bool swap) {
  vp::GridView gv{1};
  std::size_t n=vp_split(vp_u64("n",1,N));
  bool conn[N][N]={}; for (int i=0;i<N;++i) conn[i][i]=true;
  BasisFactory::Experimental::PeriodicIndexSet pis;
  std::size_t m=vp_split(vp_u64("pairs",0,pairs));
  for (std::size_t k=0;k<m;++k) {
    std::size_t a=vp_u64("a",0,N-1), b=vp_u64("b",0,N-1); vp_assume((a<n) & (b<n)); if (!swap) vp_assume(a<=b);
    a=vp_split(a); b=vp_split(b);
    pis.unifyIndexPair(a,b); conn[a][b]=conn[b][a]=true;
  }
  for (int k=0;k<N;++k) for (int i=0;i<N;++i) for (int j=0;j<N;++j) if (conn[i][k] && conn[k][j]) conn[i][j]=true;
  std::size_t classes=0; for (std::size_t i=0;i<n;++i) { bool first=true; for (std::size_t j=0;j<i;++j) if (conn[i][j]) first=false; if (first) ++classes; }
  auto pb=make(gv,n,pis);
  if constexpr (requires { pb.initializeIndices(); }) pb.initializeIndices();
  vp::Element e{3};
  auto node=pb.makeNode(); bindTree(node,e);
  using MI=Dune::ReservedVector<std::size_t,1>;
  std::vector<MI> mi(n+1); mi[n]={{77}};
  auto end=pb.indices(node,mi.begin());
  vp_assert(end-mi.begin()==(std::ptrdiff_t)n,"index generation advances by the node size"); vp_assert(mi[n][0]==77,"nothing is written beyond the node");
  auto idx=[&](std::size_t raw) { return mi[n-1-raw][0]; };
  for (std::size_t i=0;i<n;++i) {
    vp_assert(mi[i].size()==1,"indices are flat");
    vp_assert(idx(i)<classes,"every index is below the number of classes");
    for (std::size_t j=0;j<i;++j) vp_assert((idx(i)==idx(j))==conn[i][j],"two degrees of freedom share an index exactly if they are connected by identifications");
  }
  for (std::size_t c=0;c<classes;++c) { bool hit=false; for (std::size_t i=0;i<n;++i) hit=hit|(idx(i)==c); vp_assert(hit,"indices are consecutive"); }
  vp_assert((pb.size()==classes) & (pb.dimension()==classes),"size and dimension count the classes");
  MI p; vp_assert(pb.size(p)==classes,"size of the empty prefix"); p.push_back(0); vp_assert(pb.size(p)==0,"complete indices are leaves");
  vp_assert(pb.containerDescriptor().size()==classes,"containers have one entry per class");
  vp_assert(pb.maxNodeSize()>=node.size(),"maximal node size");
  vp_cover("periodic");
}
VP_HARNESS(chain) { check<4,3>([](auto& gv, std::size_t n, auto& pis) { return BasisFactory::Experimental::periodic([n](const auto& g) { return Raw(g,n); },pis)(gv); },false); }
VP_HARNESS(swapped) { check<3,2>([](auto& gv, std::size_t n, auto& pis) { return BasisFactory::Experimental::periodic([n](const auto& g) { return Raw(g,n); },pis)(gv); },true); }
VP_HARNESS(from_prebasis) { check<3,2>([](auto& gv, std::size_t n, auto& pis) { Raw raw(gv,n); raw.initializeIndices(); return BasisFactory::Experimental::periodic(raw,pis)(gv); },false); }
VP_HARNESS(from_basis) { check<3,2>([](auto& gv, std::size_t n, auto& pis) { DefaultGlobalBasis<Raw> b(gv,n); return BasisFactory::Experimental::periodic(b,pis)(gv); },false); }
#if VP_THOROUGH
VP_HARNESS(long_chain) { check<5,4>([](auto& gv, std::size_t n, auto& pis) { return BasisFactory::Experimental::periodic([n](const auto& g) { return Raw(g,n); },pis)(gv); },false); }
#endif
