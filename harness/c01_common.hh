#pragma once
#include "stubs.hh"
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;
using Sub = vp::StubPreBasis<1,2>;

template<class MI> bool eqMI(const MI& a, const MI& b) {
  if (a.size()!=b.size()) return false;
  bool r = true; for (std::size_t i=0;i<a.size();++i) r = r & (a[i]==b[i]);
  return r;
}

// expected merged multi-index of child c and child multi-index (a[,b])
template<class MI> MI spec(FlatLexicographic, std::size_t k, std::size_t n0, std::size_t c, std::size_t a, bool two, std::size_t b) { MI m; m.push_back(c*n0+a); if (two) m.push_back(b); return m; }
template<class MI> MI spec(FlatInterleaved, std::size_t k, std::size_t n0, std::size_t c, std::size_t a, bool two, std::size_t b) { MI m; m.push_back(a*k+c); if (two) m.push_back(b); return m; }
template<class MI> MI spec(BlockedLexicographic, std::size_t k, std::size_t n0, std::size_t c, std::size_t a, bool two, std::size_t b) { MI m; m.push_back(c); m.push_back(a); if (two) m.push_back(b); return m; }
template<class MI> MI spec(BlockedInterleaved, std::size_t k, std::size_t n0, std::size_t c, std::size_t a, bool two, std::size_t b) { MI m; m.push_back(a); if (two) m.push_back(b); m.push_back(c); return m; }

template<class MI, class PB> void validLeaf(const PB& pb, const MI& mi) {
  vp_assert((mi.size()>=PB::minMultiIndexSize) & (mi.size()<=PB::maxMultiIndexSize), "length of every multi-index within the advertised bounds");
  Dune::ReservedVector<std::size_t, PB::multiIndexBufferSize> p;
  for (std::size_t d=0; d<mi.size(); ++d) {
    vp_assert(mi[d] < pb.size(p), "every digit of a multi-index is below the size of its prefix");
    p.push_back(mi[d]);
  }
  vp_assert(pb.size(p)==0, "a complete multi-index is a leaf of the index tree");
}

