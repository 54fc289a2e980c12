// Contract stubs: abstract grid view, element and pre-basis. Their behaviour is
// an uninterpreted function constrained only by the documented interface
// contract, so whatever is proved about code instantiated with them holds for
// every implementation that satisfies that contract.
#pragma once
#include "prelude.hh"
#include <dune/common/reservedvector.hh>
#include <dune/common/fvector.hh>
#include <dune/functions/functionspacebases/nodes.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
#include <dune/functions/functionspacebases/concepts.hh>

namespace vp {

struct Geometry {};
struct Element {
  std::uint64_t id = 0;
  struct EntitySeed {};
  using Geometry = vp::Geometry;
  bool operator==(const Element& o) const { return id==o.id; }
};
struct Grid {};
struct GridView {
  using Grid = vp::Grid;
  static constexpr int dimension = 2, dimensionworld = 2;
  using ctype = double;
  template<int cd> struct Codim { using Entity = Element; };
  std::uint64_t id = 0;
  template<class En> bool contains(const En& e) const { return vp_uf("contains", 0, 1, id, e.id, 0, 0); }
};

struct FE { std::uint64_t n=0; std::size_t size() const { return n; } };

// A leaf node bound to an element; its local size is an arbitrary function of
// (pre-basis, element).
template<int tag, int maxLocal>
class StubNode : public Dune::Functions::LeafBasisNode
{
public:
  using Element = vp::Element;
  using FiniteElement = FE;
  using size_type = std::size_t;
  StubNode() = default;
  explicit StubNode(std::uint64_t inst) : inst_(inst) {}
  const Element& element() const { return *element_; }
  const FE& finiteElement() const { return fe_; }
  void bind(const Element& e) {
    element_ = &e;
    fe_.n = vp_split(vp_uf("localSize", 0, maxLocal, tag, inst_, e.id, 0));
    this->setSize(fe_.n);
  }
  std::uint64_t inst_ = 0;
  const Element* element_ = nullptr;
  FE fe_;
};

constexpr std::uint64_t maxDigit = 1u<<24;

// An abstract pre-basis whose index tree has root size n0 and, if depth==2, an
// arbitrary non-uniform second level (size1(i)==0: [i] is a leaf).
template<int tag, int depth, int maxLocal=2>
class StubPreBasis
{
public:
  using GridView = vp::GridView;
  using size_type = std::size_t;
  using Node = StubNode<tag,maxLocal>;
  static constexpr size_type maxMultiIndexSize = depth;
  static constexpr size_type minMultiIndexSize = 1;
  static constexpr size_type multiIndexBufferSize = depth;
  StubPreBasis(const GridView& gv, std::uint64_t inst = 0) : gv_(gv), inst_(inst) {}
  void initializeIndices() { initialized_++; }
  const GridView& gridView() const { return gv_; }
  void update(const GridView& gv) { gv_ = gv; }
  Node makeNode() const { return Node(inst_); }
  size_type n0() const { return vp_uf("rootSize", 0, maxDigit, tag, inst_, gv_.id, 0); }
  size_type n1(size_type i) const { if (depth<2) return 0; return vp_uf("subSize", 0, maxDigit, tag, inst_, gv_.id, i); }
  size_type size() const { return n0(); }
  template<class SizePrefix, decltype(std::declval<SizePrefix>().size(), bool{}) = true>
  size_type size(const SizePrefix& p) const {
    if (p.size()==0) return n0();
    // contract: only prefixes of multi-indices are ever queried
    vp_assert(p[0] < n0(), "sub-pre-basis queried with an in-range prefix (first digit)");
    if (p.size()==1) return n1(p[0]);
    vp_assert(depth>=2, "sub-pre-basis queried with a prefix no longer than its multi-indices");
    vp_assert(p.size()==2, "sub-pre-basis queried with a prefix no longer than its multi-indices");
    vp_assert(p[1] < n1(p[0]), "sub-pre-basis queried with an in-range prefix (second digit)");
    return 0;
  }
  size_type dimension() const { return vp_uf("dim", 0, maxDigit, tag, inst_, gv_.id, 0); }
  size_type maxNodeSize() const { return maxLocal; }
  // the i-th multi-index of element e
  size_type d0(const Element& e, size_type i) const { return vp_uf("digit0", 0, maxDigit, tag, inst_, e.id, i); }
  size_type d1(const Element& e, size_type i) const { return vp_uf("digit1", 0, maxDigit, tag, inst_, e.id, i); }
  size_type len(const Element& e, size_type i) const { return n1(d0(e,i))==0 ? 1 : 2; }
  template<class It>
  It indices(const Node& node, It it) const {
    const Element& e = node.element();
    for (size_type i=0; i<node.size(); ++i, ++it) {
      size_type a = d0(e,i);
      vp_assume(a < n0());
      size_type s = n1(a);
      if (s==0) { *it = {{ a }}; }
      else {
        size_type b = d1(e,i);
        vp_assume(b < s);
        if constexpr (depth>=2) *it = {{ a, b }};
      }
      for (size_type j=0; j<i; ++j) vp_assume(!same(e,i,j));
    }
    return it;
  }
  bool same(const Element& e, size_type i, size_type j) const {
    return (d0(e,i)==d0(e,j)) & ((n1(d0(e,i))==0) | (d1(e,i)==d1(e,j)));
  }
  auto containerDescriptor() const { return Dune::Functions::ContainerDescriptors::Unknown{}; }
  GridView gv_;
  std::uint64_t inst_;
  int initialized_ = 0;
};

} // namespace vp
