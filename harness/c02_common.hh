#pragma once
#include "stubs.hh"
#include <dune/common/hybridutilities.hh>
#include <dune/common/tuplevector.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;
namespace CD = Dune::Functions::ContainerDescriptors;

// sub pre-bases with a container descriptor: flat, or an arbitrary non-uniform vector of flat vectors
constexpr std::size_t maxSize = VP_THOROUGH ? 3 : 2;
template<int tag, int lo=1> struct Flat : vp::StubPreBasis<tag,1,1> {
  using Base=vp::StubPreBasis<tag,1,1>; using Base::Base;
  std::size_t n=0; bool concrete=false;
  Flat(const vp::GridView& gv, bool c) : Base(gv), concrete(c) { n = vp_u64("flatSize",lo,c?maxSize:vp::maxDigit); if (c) n=vp_split(n); }
  std::size_t size() const { return n; }
  template<class P> std::size_t size(const P& p) const { if (p.size()==0) return n; vp_assert((p.size()==1) && (p[0]<n),"sub-pre-basis queried with a valid prefix"); return 0; }
  std::size_t dimension() const { return n; }
  auto containerDescriptor() const { return CD::FlatVector{n}; }
};
template<int tag> struct Nested : vp::StubPreBasis<tag,2,1> {
  using Base=vp::StubPreBasis<tag,2,1>; std::vector<std::size_t> n;
  Nested(const vp::GridView& gv, bool c) : Base(gv) { std::size_t k=vp_split(vp_u64("nestedSize",1,maxSize)); for (std::size_t i=0;i<k;++i) { n.push_back(vp_u64("nestedSubSize",1,c?maxSize:vp::maxDigit)); if (c) n[i]=vp_split(n[i]); } }
  std::size_t size() const { return n.size(); }
  template<class P> std::size_t size(const P& p) const { if (p.size()==0) return n.size(); vp_assert(p[0]<n.size(),"sub-pre-basis queried with a valid prefix"); if (p.size()==1) return n[p[0]]; vp_assert((p.size()==2) && (p[1]<n[p[0]]),"sub-pre-basis queried with a valid prefix"); return 0; }
  std::size_t dimension() const { std::size_t s=0; for (auto x : n) s+=x; return s; }
  auto containerDescriptor() const { CD::Vector<CD::FlatVector> v; for (auto x : n) v.push_back(CD::FlatVector{x}); return v; }
};
template<int tag, int lo=1> auto flat(bool c) { return [c](const auto& gv){ return Flat<tag,lo>(gv,c); }; }
template<int tag> auto nested(bool c) { return [c](const auto& gv){ return Nested<tag>(gv,c); }; }

template<class PB> struct Provider { using SizePrefix=Dune::ReservedVector<std::size_t,PB::multiIndexBufferSize>; const PB& pb; std::size_t size(const SizePrefix& p) const { return pb.size(p); } std::size_t size() const { return pb.size(); } std::size_t dimension() const { return pb.dimension(); } };

template<class D> struct IsTuple : std::false_type {};
template<class... T> struct IsTuple<Dune::TupleVector<T...>> : std::true_type {};
template<class... T> struct IsTuple<Dune::MultiTypeBlockVector<T...>> : std::true_type {};

// an arbitrary path through a descriptor or container: at every prefix it has the size reported by the basis
template<class PB, class D, class P> void sameShape(const PB& pb, const D& d, P p, const char* what) {
  using T=std::decay_t<D>;
  if constexpr (std::is_same_v<T,double>) { vp_assert(pb.size(p)==0,"scalar entries are exactly the leaves of the index tree"); vp_assert_eq(d,0.,"new entries are initialised"); vp_cover("scalar"); }
  else {
    std::size_t s=Dune::Hybrid::size(d); vp_assert(s==pb.size(p),what);
    if constexpr (std::is_same_v<T,CD::Value>) vp_cover("leaf");
    else if (s>0) {
      vp_assert(p.size()<PB::maxMultiIndexSize,"no path is longer than the multi-indices");
      std::size_t i=vp_u64("digit",0,vp::maxDigit*8); vp_assume(i<s);
      if constexpr (IsTuple<T>::value) { i=vp_split(i); p.push_back(i); Dune::Hybrid::forEach(std::make_index_sequence<T::size()>{},[&](auto k){ if (k==i) sameShape(pb,d[k],p,what); }); }
      else { p.push_back(i); sameShape(pb,d[i],p,what); }
    }
  }
}
template<class PB> using Prefix = Dune::ReservedVector<std::size_t,PB::multiIndexBufferSize>;
// the same for a container, for all paths
template<class PB, class D, class P> void allShape(const PB& pb, const D& d, P p, const char* what, double init) {
  using T=std::decay_t<D>;
  if constexpr (std::is_same_v<T,double>) { vp_assert(pb.size(p)==0,"scalar entries are exactly the leaves of the index tree"); vp_assert_eq(d,init,"new entries are initialised"); vp_cover("scalar"); }
  else {
    std::size_t s=Dune::Hybrid::size(d); vp_assert(s==pb.size(p),what); if (s>0) vp_assert(p.size()<PB::maxMultiIndexSize,"no path is longer than the multi-indices");
    if constexpr (IsTuple<T>::value) { p.push_back(0); Dune::Hybrid::forEach(std::make_index_sequence<T::size()>{},[&](auto k){ p.back()=k; allShape(pb,d[k],p,what,init); }); }
    else { if (s>0) p.push_back(0); for (std::size_t i=0;i<s;++i) { p.back()=i; allShape(pb,d[i],p,what,init); } }
  }
}
// all leaves of the index tree
template<class PB, class F> void leaves(const PB& pb, Prefix<PB> p, F&& f) { std::size_t s=pb.size(p); if (s==0) { f(p); return; } p.push_back(0); for (std::size_t i=0;i<s;++i) { p.back()=i; leaves(pb,p,f); } }
// number of scalar entries
template<class C> std::size_t count(const C& c) { if constexpr (std::is_same_v<C,double>) return 1; else { std::size_t n=0; Dune::Hybrid::forEach(c,[&](const auto& x){ n+=count(x); }); return n; } }
template<class PB, class C> void ownEntries(const PB& pb, C& c) {
  vp_assert(count(c)==pb.dimension(),"one scalar entry per degree of freedom");
  auto b=istlVectorBackend(c); int n=0; leaves(pb,Prefix<PB>{},[&](const auto& i){ b[i]=++n; }); vp_assert(n==(int)pb.dimension(),"as many leaves as degrees of freedom");
  const auto& cc=c; auto cb=istlVectorBackend(cc); int k=0; leaves(pb,Prefix<PB>{},[&](const auto& i){ ++k; vp_assert_eq(b[i],k,"each multi-index addresses its own entry"); vp_assert_eq(cb[i],k,"each multi-index addresses its own entry (const access)"); });
  vp_cover("own entry");
}
// descriptor with arbitrary sizes
template<class F> void descriptor(F factory) {
  vp::GridView gv{0}; auto pb=factory(false)(gv); using PB=decltype(pb); auto cd=pb.containerDescriptor();
  static_assert(!std::is_same_v<decltype(cd),CD::Unknown>);
  sameShape(pb,cd,Prefix<PB>{},"at every prefix the descriptor has the size of the basis");
}
// containers made from it
template<class F> void containers(F factory) {
  vp::GridView gv{0}; auto pb=factory(true)(gv); using PB=decltype(pb); auto cd=pb.containerDescriptor(); auto op=vp_split(vp_u64("op",0,3));
  if (op==0) { auto c=makeContainer<double>(cd); allShape(pb,c,Prefix<PB>{},"at every prefix the container has the size of the basis",0); double v=vp_real("init"); auto d=makeContainer<double>(cd,v); allShape(pb,d,Prefix<PB>{},"at every prefix the container has the size of the basis",v); }
  if (op==1) { auto c=makeContainer<double>(cd,0.); ownEntries(pb,c); }
  if (op==2) { auto c=makeISTLVector<double>(cd); allShape(pb,c,Prefix<PB>{},"at every prefix the ISTL vector has the size of the basis",0); }
  if (op==3) { auto c=makeISTLVector<double>(cd); ownEntries(pb,c); }
}
#define C02(name,...) VP_HARNESS(d_##name) { descriptor([](bool c){ return __VA_ARGS__; }); } VP_HARNESS(c_##name) { containers([](bool c){ return __VA_ARGS__; }); }
#define C02ALL(name,POW) C02(name##_fl,POW(flatLexicographic())) C02(name##_fi,POW(flatInterleaved())) C02(name##_bl,POW(blockedLexicographic())) C02(name##_bi,POW(blockedInterleaved()))
