// Contract finite element and pre-basis over the abstract grid: shape functions,
// Jacobians, interpolation functionals and indices are uninterpreted functions
// of (pre-basis, element, number), so whatever is proved about code using them
// holds for every finite element and pre-basis with that interface.
#pragma once
#include "grid.hh"
#include <dune/grid/utility/hierarchicsearch.hh>
#include <dune/functions/functionspacebases/nodes.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
#include <dune/functions/functionspacebases/concepts.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>

namespace vf {
using u64 = std::uint64_t;
using GV = vg::GridView<2,2>; using E = vg::Entity<0,2,2>; using X = Dune::FieldVector<double,2>;
inline u64 key(u64 tag, u64 e, u64 i, u64 c) { return ((tag*8+i)*8+c)*(vg::maxIndex*2)+e; }
// specification functions
inline double shape(u64 tag, u64 e, u64 i, u64 c, const X& x) { return vp_ufr("shape",key(tag,e,i,c),x[0],x[1],0); }
inline double dshape(u64 tag, u64 e, u64 i, u64 c, u64 d, const X& x) { return vp_ufr("dshape",key(tag,e,i,c)*2+d,x[0],x[1],0); }
inline X node(u64 tag, u64 e, u64 i) { return { vp_ufr("nodex",key(tag,e,i,0),0,0,0), vp_ufr("nodey",key(tag,e,i,0),0,0,0) }; }
inline double functional(u64 tag, u64 e, u64 i, double a, double b=0) { return vp_ufr("functional",key(tag,e,i,0),a,b,0); }
inline u64 dofIndex(u64 tag, u64 e, u64 i, u64 n) { return vp_uf("dofIndex",0,n-1,tag,e,i,0); }

// r: number of components of the shape functions, hermite: interpolation also uses the derivative
template<int tag, int r, bool hermite=false> struct FE {
  struct LocalBasis {
    struct Traits {
      using DomainFieldType = double; using DomainType = X; static constexpr int dimDomain = 2;
      using RangeFieldType = double; using RangeType = Dune::FieldVector<double,r>; static constexpr int dimRange = r;
      using JacobianType = Dune::FieldMatrix<double,r,2>;
    };
    u64 e=0, n=0;
    unsigned size() const { return n; }
    void evaluateFunction(const X& x, std::vector<typename Traits::RangeType>& out) const { out.resize(n); for (u64 i=0;i<n;++i) for (int c=0;c<r;++c) out[i][c]=shape(tag,e,i,c,x); }
    void evaluateJacobian(const X& x, std::vector<typename Traits::JacobianType>& out) const { out.resize(n); for (u64 i=0;i<n;++i) for (int c=0;c<r;++c) for (int d=0;d<2;++d) out[i][c][d]=dshape(tag,e,i,c,d,x); }
    unsigned order() const { return 1; }
  };
  struct LocalInterpolation {
    u64 e=0, n=0;
    template<class F, class C> void interpolate(const F& f, std::vector<C>& out) const {
      out.resize(n);
      for (u64 i=0;i<n;++i) {
        auto y = f(node(tag,e,i));
        if constexpr (hermite) { auto dy = derivative(f)(node(tag,e,i)); out[i] = functional(tag,e,i,scalar(y,0),scalar(dy,1)); }
        else if constexpr (r==1) out[i] = functional(tag,e,i,scalar(y,0));
        else out[i] = functional(tag,e,i,y[0],y[1]);
      }
    }
    static double scalar(double y, int) { return y; }
    template<int k> static double scalar(const Dune::FieldVector<double,k>& y, int i) { return y[k>1?i:0]; }
    template<int k> static double scalar(const Dune::FieldMatrix<double,1,k>& y, int i) { return y[0][i]; }
  };
  struct Traits { using LocalBasisType = LocalBasis; using LocalInterpolationType = LocalInterpolation; using LocalCoefficientsType = int; };
  LocalBasis lb; LocalInterpolation li;
  const LocalBasis& localBasis() const { return lb; }
  const LocalInterpolation& localInterpolation() const { return li; }
  unsigned size() const { return lb.n; }
  Dune::GeometryType type() const { return Dune::GeometryTypes::simplex(2); }
};
template<int tag, int r, int maxLocal, bool hermite> struct Node : public Dune::Functions::LeafBasisNode {
  using Element = vf::E; using FiniteElement = FE<tag,r,hermite>; using size_type = std::size_t;
  const Element& element() const { return *e_; }
  const FiniteElement& finiteElement() const { return fe_; }
  void bind(const Element& e) {
    e_=&e; u64 n = minLocal==maxLocal ? maxLocal : vp_split(vp_uf("localSize",minLocal,maxLocal,tag,e.id,0,0));
    fe_.lb.e=fe_.li.e=e.id; fe_.lb.n=fe_.li.n=n; this->setSize(n);
  }
  u64 minLocal=maxLocal; const Element* e_=nullptr; FiniteElement fe_;
};
// n indices; minLocal..maxLocal functions per element
template<int tag, int n, int r=1, int maxLocal=2, bool hermite=false> struct PreBasis {
  using GridView = GV; using size_type = std::size_t; using Node = vf::Node<tag,r,maxLocal,hermite>;
  static constexpr size_type maxMultiIndexSize=1, minMultiIndexSize=1, multiIndexBufferSize=1;
  GV gv; u64 minLocal=maxLocal;
  PreBasis(const GV& g, u64 m=maxLocal) : gv(g), minLocal(m) {}
  void initializeIndices() {}
  const GV& gridView() const { return gv; }
  void update(const GV& g) { gv=g; }
  Node makeNode() const { Node x; x.minLocal=minLocal; return x; }
  size_type size() const { return n; }
  template<class P, decltype(std::declval<P>().size(), bool{}) = true> size_type size(const P& p) const { return p.size()==0 ? n : 0; }
  size_type dimension() const { return n; }
  size_type maxNodeSize() const { return maxLocal; }
  template<class It> It indices(const Node& node, It it) const {
    u64 e=node.element().id;
    for (u64 i=0;i<node.size();++i,++it) {
      *it = {{ dofIndex(tag,e,i,n) }};
      for (u64 j=0;j<i;++j) vp_assume(dofIndex(tag,e,i,n)!=dofIndex(tag,e,j,n));
    }
    return it;
  }
  auto containerDescriptor() const { return Dune::Functions::ContainerDescriptors::FlatVector(n); }
};
template<int tag, int n, int r=1, int maxLocal=2, bool hermite=false> auto leaf(u64 minLocal=maxLocal) { return [minLocal](const GV& gv) { return PreBasis<tag,n,r,maxLocal,hermite>(gv,minLocal); }; }
inline E* found = nullptr;   // the element a global search finds
}
// contract of the grid search: some element containing the point
template<> class Dune::HierarchicSearch<vg::Grid<2,2>, vg::IndexSet<2,2>> {
public:
  HierarchicSearch(const vg::Grid<2,2>&, const vg::IndexSet<2,2>&) {}
  vf::E findEntity(const vf::X&) const { return *vf::found; }
};
