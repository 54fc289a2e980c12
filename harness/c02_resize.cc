#include "c02_common.hh"
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
template<class PB, class D, class P> void shape(const PB& pb, const D& d, P p) {
  if constexpr (std::is_same_v<std::decay_t<D>,double>) vp_assert(pb.size(p)==0,"scalar entries are exactly the leaves of the index tree");
  else {
    std::size_t s=Dune::Hybrid::size(d); vp_assert(s==pb.size(p),"after resizing, the vector has the size of the basis at every prefix"); 
    if constexpr (IsTuple<std::decay_t<D>>::value) { p.push_back(0); Dune::Hybrid::forEach(std::make_index_sequence<std::decay_t<D>::size()>{},[&](auto k){ p.back()=k; shape(pb,d[k],p); }); }
    else { if (s>0) p.push_back(0); for (std::size_t i=0;i<s;++i) { p.back()=i; shape(pb,d[i],p); } }
  }
}
template<class V, class F> void fits(F factory, V v=V{}) {
  vp::GridView gv{0}; auto pb=factory(true)(gv); using PB=decltype(pb); auto b=istlVectorBackend(v); b.resize(Provider<PB>{pb});
  shape(pb,v,Prefix<PB>{}); ownEntries(pb,v);
  // the number of degrees of freedom may change
  auto pb2=factory(true)(gv); b.resize(Provider<PB>{pb2}); shape(pb2,v,Prefix<PB>{}); vp_cover("resized");
}
template<class V, class F> void rejected(F factory, V v=V{}) {
  vp::GridView gv{0}; auto pb=factory(true)(gv); using PB=decltype(pb); auto b=istlVectorBackend(v); bool thrown=false;
  try { b.resize(Provider<PB>{pb}); } catch (Dune::RangeError&) { thrown=true; } vp_assert(thrown,"a vector whose shape does not fit the basis is rejected"); vp_cover("rejected");
}
using SV=std::vector<double>; using SVV=std::vector<SV>; template<int n> using FV=Dune::FieldVector<double,n>; template<int n> using BV=Dune::BlockVector<FV<n>>;
#define P(s) [](bool c){ return power<2>(flat<1>(c),s); }
VP_HARNESS(r_flat_lex) { fits<SV>(P(flatLexicographic())); }
VP_HARNESS(r_flat_int) { fits<SV>(P(flatInterleaved()),SV(7,1.)); }
VP_HARNESS(r_istl_flat) { fits<Dune::BlockVector<double>>(P(flatInterleaved())); }
VP_HARNESS(r_blocked_lex) { fits<SVV>(P(blockedLexicographic()),SVV(1,SV(3,0.))); }
VP_HARNESS(r_blocked_lex_array) { fits<std::array<SV,2>>(P(blockedLexicographic())); }
VP_HARNESS(r_blocked_int) { fits<BV<2>>(P(blockedInterleaved())); }
VP_HARNESS(r_blocked_int_vv) { fits<SVV>(P(blockedInterleaved())); }
VP_HARNESS(r_nested) { fits<std::vector<SVV>>([](bool c){ return power<2>(nested<1>(c),blockedLexicographic()); }); }
VP_HARNESS(r_nested_int) { fits<std::vector<std::vector<FV<2>>>>([](bool c){ return power<2>(nested<1>(c),blockedInterleaved()); }); }
#define T [](bool c){ return composite(power<2>(flat<1>(c),blockedInterleaved()),flat<2>(c),blockedLexicographic()); }
VP_HARNESS(r_tuple) { fits<Dune::MultiTypeBlockVector<BV<2>,Dune::BlockVector<double>>>(T); }
VP_HARNESS(r_tuple2) { fits<Dune::TupleVector<SVV,SV>>(T); }
VP_HARNESS(x_small_block) { rejected<BV<3>>(P(blockedInterleaved())); }
VP_HARNESS(x_array) { rejected<std::array<SV,3>>(P(blockedLexicographic())); }
VP_HARNESS(x_scalar) { rejected<SV>(P(blockedLexicographic())); }
VP_HARNESS(x_tuple_swapped) { rejected<Dune::MultiTypeBlockVector<Dune::BlockVector<double>,BV<2>>>(T); }
VP_HARNESS(x_tuple_more) { rejected<Dune::TupleVector<SVV,SV,SV>>(T); }
VP_HARNESS(x_dynamic_entry) { rejected<SVV>(P(flatLexicographic())); }
