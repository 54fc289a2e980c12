#pragma once
#include "fe.hh"
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory; using namespace Dune::Indices;
using vf::u64; using vf::X; using vf::E; using vf::GV;
using V1=Dune::FieldVector<double,1>; using V2=Dune::FieldVector<double,2>; using M22=Dune::FieldMatrix<double,2,2>; using M12=Dune::FieldMatrix<double,1,2>;
inline X anyX() { X x; x[0]=vp_real("x"); x[1]=vp_real("y"); return x; }
inline E anyE(const char* n="e") { return E{ vp_u64(n,0,vg::maxIndex), Dune::GeometryTypes::simplex(2), 0 }; }
// specification: the linear combination of the shape functions (component c of them)
// of the node with this tag; coeff(i) is the coefficient with index i
template<class C> double value(u64 tag, u64 n, u64 m, const E& e, u64 c, const X& x, C&& coeff) {
  double s=0; for (u64 i=0;i<m;++i) s += coeff(vp_split(vf::dofIndex(tag,e.id,i,n)))*vf::shape(tag,e.id,i,c,x); return s;
}
// and its derivative in global direction d
template<class C> double slope(u64 tag, u64 n, u64 m, const E& e, u64 c, u64 d, const X& x, C&& coeff) {
  double s=0; auto J=e.geometry().jacobianInverse(x);
  for (u64 i=0;i<m;++i) for (int k=0;k<2;++k) s += coeff(vp_split(vf::dofIndex(tag,e.id,i,n)))*vf::dshape(tag,e.id,i,c,k,x)*J[k][d];
  return s;
}
inline u64 localSize(u64 tag, const E& e, u64 lo, u64 hi) { return lo==hi ? hi : vp_split(vp_uf("localSize",lo,hi,tag,e.id,0,0)); }
// local evaluation, after every way of getting a bound local function
template<class F, class Spec, class DSpec> void check(const F& gf, Spec&& spec, DSpec&& dspec, u64 ops=8) {
  E e=anyE(), f=anyE("f"); X x=anyX(); vp_assume(e.id!=f.id);
  // the other element has full size and the first indices
  for (u64 tag=1;tag<3;++tag) { vp_assume(vp_uf("localSize",0,2,tag,f.id,0,0)==2); for (u64 i=0;i<2;++i) for (u64 n=2;n<4;++n) vp_assume(vf::dofIndex(tag,f.id,i,n)==i); }
  switch (vp_split(vp_u64("op",0,ops-1))) {
  case 0: { auto l=localFunction(gf); vp_assert(!l.bound(),"a new local function is not bound"); l.bind(e); vp_assert(l.bound() && l.localContext()==e,"bound to the element"); spec(l(x),e,x); spec(l(x),e,x); break; }
  case 1: { auto l=localFunction(gf); l.bind(f); l(x); l.bind(e); spec(l(x),e,x); auto k=l; l.bind(f); l(x); spec(k(x),e,x); break; }
  case 2: { auto l=localFunction(gf), k=localFunction(gf); l.bind(e); k.bind(f); k(x); k=l; l.bind(f); l(x); spec(k(x),e,x); vp_assert(k.localContext()==e,"assignment takes over the element"); l.unbind(); vp_assert(!l.bound() && k.bound(),"unbinding does not affect copies"); break; }
  case 3: { auto d=localFunction(derivative(gf)); d.bind(f); d(x); d.bind(e); dspec(d(x),e,x); auto k=d; d.bind(f); dspec(k(x),e,x); k=d; k.bind(e); d.unbind(); vp_assert(!d.bound() && k.bound(),"unbinding does not affect copies of the derivative"); dspec(k(x),e,x); break; }
  case 4: { auto l=localFunction(gf); l.bind(e); auto d=derivative(l); l.bind(f); vp_assert(d.bound() && d.localContext()==e,"the derivative of a bound local function is bound"); dspec(d(x),e,x); break; }
  case 5: { auto l=localFunction(gf); auto d=derivative(l); vp_assert(!d.bound(),"the derivative of an unbound local function is unbound"); d.bind(e); dspec(d(x),e,x); break; }
  case 6: { vf::found=&e; X y=anyX(); spec(gf(y),e,e.geometry().local(y)); break; }
  case 7: { vf::found=&e; X y=anyX(); auto d=derivative(gf); dspec(d(y),e,e.geometry().local(y)); break; }
  }
  vp_cover("evaluated");
}
