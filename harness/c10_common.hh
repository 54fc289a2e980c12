#pragma once
#include "fe.hh"
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory; using namespace Dune::Indices;
using vf::u64; using vf::X; using vf::E; using vf::GV;
inline double f(u64 c, const X& x) { return vp_ufr("f",c,x[0],x[1],0); }
// an arbitrary selection rule / history: two elements that may share degrees of freedom
struct World { vg::GridData<2,2> gd{{Dune::GeometryTypes::simplex(2),Dune::GeometryTypes::simplex(2)}}; GV gv{gd}; };
// expected coefficient of function i of the node with this tag on element e for component c
inline double coefficient(u64 tag, const E& e, u64 i, u64 c) { return vf::functional(tag,e.id,i,f(c,e.geometry().global(vf::node(tag,e.id,i)))); }
// value v (formerly old) of the entry with the given index of leaf node tag
template<class World> void checkEntry(const World& w, u64 tag, u64 n, u64 maxLocal, u64 index, bool selected, double v, double old, u64 c, u64 minLocal) {
  bool hit=false, ok=false, any=false;
  for (const auto& e : w.gd.elements) {
    u64 m = minLocal==maxLocal ? maxLocal : vp_split(vp_uf("localSize",minLocal,maxLocal,tag,e.id,0,0));
    for (u64 i=0;i<m;++i) {
      hit = vf::dofIndex(tag,e.id,i,n)==index;
      any = any | hit;
      ok = ok | (hit & (v==coefficient(tag,e,i,c)));
    }
  }
  vp_assert(!(any & selected) | ok, "every selected degree of freedom gets the interpolation coefficient of its component on an element containing it");
  vp_assert((any & selected) | (v==old), "every other entry is unchanged");
  vp_cover("entry checked");
}
