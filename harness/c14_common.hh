#pragma once
#include "grid.hh"
#include <functional>
#include <dune/localfunctions/common/localkey.hh>
#include <dune/functions/functionspacebases/nodes.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
using namespace Dune::Functions; using Dune::Functions::BasisFactory::makeBasis; using namespace Dune::GeometryTypes; using namespace Dune::Indices; using u64=std::uint64_t; using Dune::GeometryType; using Keys=std::vector<Dune::LocalKey>;
// a leaf basis whose local functions are attached to the sub-entities a harness names
struct KeyFE { struct Coefficients { Keys keys; std::size_t size() const { return keys.size(); } const Dune::LocalKey& localKey(std::size_t i) const { return keys[i]; } } lc; const Coefficients& localCoefficients() const { return lc; } std::size_t size() const { return lc.size(); } };
template<int dim> struct KeyNode : LeafBasisNode { using Element=vg::Entity<0,dim,dim>; using FiniteElement=KeyFE; using size_type=std::size_t; const Element* e=nullptr; KeyFE fe; const std::vector<Keys>* keys=nullptr; const Element& element() const { return *e; } const KeyFE& finiteElement() const { return fe; } void bind(const Element& x) { e=&x; fe.lc.keys=(*keys)[x.id]; this->setSize(fe.size()); } };
template<int dim, int tag> struct KeyPreBasis { using GridView=vg::GridView<dim>; using size_type=std::size_t; using Node=KeyNode<dim>; static constexpr size_type maxMultiIndexSize=1, minMultiIndexSize=1, multiIndexBufferSize=1;
  GridView gv; const std::vector<Keys>* keys; void initializeIndices() {} const GridView& gridView() const { return gv; } void update(const GridView& g) { gv=g; } Node makeNode() const { Node n; n.keys=keys; return n; }
  size_type total() const { size_type s=0; for (auto& k : *keys) s+=k.size(); return s; }
  size_type size() const { return total(); } template<class P, decltype(std::declval<P>().size(), bool{}) = true> size_type size(const P& p) const { return p.size()==0 ? total() : 0; } size_type dimension() const { return total(); }
  size_type maxNodeSize() const { size_type s=0; for (auto& k : *keys) if (k.size()>s) s=k.size(); return s; }
  template<class It> It indices(const Node& n, It it) const { size_type o=0; for (u64 e=0;e<n.element().id;++e) o+=(*keys)[e].size(); for (size_type i=0;i<n.size();++i,++it) *it={{o+i}}; return it; }
  auto containerDescriptor() const { return ContainerDescriptors::FlatVector(total()); } };
template<int dim, int tag=0> auto keyLeaf(const std::vector<Keys>& k) { return [&k](const vg::GridView<dim>& gv) { return KeyPreBasis<dim,tag>{gv,&k}; }; }
// definition: the sub-entity (s,c) is (I,C) itself or one of its sub-entities: its vertices are among the vertices of (I,C)
template<int dim> bool within(GeometryType t, int s, int c, int I, int C) { auto re=Dune::referenceElement<double,dim>(t); if (c<C) return false; bool all=true; for (int i=0;i<re.size(s,c,dim);++i) { bool in=false; for (int j=0;j<re.size(I,C,dim);++j) in|=re.subEntity(s,c,i,dim)==re.subEntity(I,C,j,dim); all&=in; } return all; }
template<int dim> Keys everywhere(GeometryType t) { Keys k; auto re=Dune::referenceElement<double,dim>(t); for (int c=dim;c>=0;--c) for (int s=0;s<re.size(c);++s) for (int i=0;i<(c==0 ? 2 : 1);++i) k.push_back(Dune::LocalKey(s,c,i)); return k; }
template<int dim> Keys some(GeometryType t, u64 n) { Keys k; auto re=Dune::referenceElement<double,dim>(t); for (u64 i=0;i<n;++i) { int c=vp_split(vp_u64("codim",0,dim)); int s=vp_split(vp_u64("subEntity",0,re.size(c)-1)); k.push_back(Dune::LocalKey(s,c,i)); } return k; }
