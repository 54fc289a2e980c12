#include "c11_common.hh"
VP_HARNESS(power_bi) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,power<2>(vf::leaf<1,2>(),blockedInterleaved()));
  std::vector<V2> v(2); for (auto& c : v) for (auto& a : c) a=vp_real("c");
  auto gf=makeDiscreteGlobalBasisFunction<V2>(b,v);
  check(gf,[&](const V2& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) vp_assert_eq(y[j],value(1,2,2,e,0,x,[&](u64 i) { return v[i][j]; }),"each child gives its range component"); },
    [&](const M22& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) for (int d=0;d<2;++d) vp_assert_eq(y[j][d],slope(1,2,2,e,0,d,x,[&](u64 i) { return v[i][j]; }),"derivative of each range component"); });
}
VP_HARNESS(power_fl) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,power<2>(vf::leaf<1,2>(1),flatLexicographic()));
  std::vector<double> v(4); for (auto& a : v) a=vp_real("c");
  auto gf=makeDiscreteGlobalBasisFunction<V2>(b,v);
  check(gf,[&](const V2& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) vp_assert_eq(y[j],value(1,2,localSize(1,e,1,2),e,0,x,[&](u64 i) { return v[j*2+i]; }),"each child gives its range component"); },
    [&](const M22& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) for (int d=0;d<2;++d) vp_assert_eq(y[j][d],slope(1,2,localSize(1,e,1,2),e,0,d,x,[&](u64 i) { return v[j*2+i]; }),"derivative of each range component"); });
}
VP_HARNESS(power_subspace) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,power<2>(vf::leaf<1,2>(1),flatLexicographic()));
  std::vector<double> v(4); for (auto& a : v) a=vp_real("c");
  u64 k=vp_split(vp_u64("component",0,1)); auto sb=subspaceBasis(b,k);
  auto gf=makeDiscreteGlobalBasisFunction<double>(sb,v); auto coeff=[&](u64 i) { return v[k*2+i]; };
  check(gf,[&](double y, const E& e, const X& x) { vp_assert_eq(y,value(1,2,localSize(1,e,1,2),e,0,x,coeff),"a subspace evaluates the functions of its subtree"); },
    [&](const X& y, const E& e, const X& x) { for (int d=0;d<2;++d) vp_assert_eq(y[d],slope(1,2,localSize(1,e,1,2),e,0,d,x,coeff),"derivative of a subspace function"); });
}
VP_HARNESS(dynamic_subspace) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,power(vf::leaf<1,2>(),3,flatInterleaved()));
  std::vector<double> v(6); for (auto& a : v) a=vp_real("c");
  u64 k=vp_split(vp_u64("component",0,2)); auto sb=subspaceBasis(b,k);
  auto gf=makeDiscreteGlobalBasisFunction<double>(sb,v); auto coeff=[&](u64 i) { return v[i*3+k]; };
  check(gf,[&](double y, const E& e, const X& x) { vp_assert_eq(y,value(1,2,2,e,0,x,coeff),"a subspace evaluates the functions of its subtree"); },
    [&](const X& y, const E& e, const X& x) { for (int d=0;d<2;++d) vp_assert_eq(y[d],slope(1,2,2,e,0,d,x,coeff),"derivative of a subspace function"); },6);
}
struct TH {
  vg::GridData<2,2> gd{{}}; GV gv{gd};
  auto basis() { return makeBasis(gv,composite(power<2>(vf::leaf<1,2>(),blockedInterleaved()),vf::leaf<2,2>(),blockedLexicographic())); }
  Dune::TupleVector<std::vector<V2>,std::vector<double>> v;
  TH() { v[_0].resize(2); v[_1].resize(2); for (auto& x : v[_0]) for (auto& y : x) y=vp_real("c"); for (auto& y : v[_1]) y=vp_real("c"); }
};
VP_HARNESS(composite_velocity) {
  TH t; auto b=t.basis(); auto sb=subspaceBasis(b,_0); auto gf=makeDiscreteGlobalBasisFunction<V2>(sb,t.v);
  check(gf,[&](const V2& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) vp_assert_eq(y[j],value(1,2,2,e,0,x,[&](u64 i) { return t.v[_0][i][j]; }),"components of a vector-valued subspace"); },
    [&](const M22& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) for (int d=0;d<2;++d) vp_assert_eq(y[j][d],slope(1,2,2,e,0,d,x,[&](u64 i) { return t.v[_0][i][j]; }),"derivative of a vector-valued subspace"); });
}
VP_HARNESS(composite_pressure) {
  TH t; auto b=t.basis(); auto sb=subspaceBasis(b,_1); auto gf=makeDiscreteGlobalBasisFunction<double>(sb,t.v);
  auto coeff=[&](u64 i) { return t.v[_1][i]; };
  check(gf,[&](double y, const E& e, const X& x) { vp_assert_eq(y,value(2,2,2,e,0,x,coeff),"the last subspace"); },
    [&](const X& y, const E& e, const X& x) { for (int d=0;d<2;++d) vp_assert_eq(y[d],slope(2,2,2,e,0,d,x,coeff),"derivative of the last subspace"); });
}
// all components in one range
VP_HARNESS(composite_all) {
  TH t; auto b=t.basis();
  using R=Dune::TupleVector<V2,double>;
  auto gf=makeDiscreteGlobalBasisFunction<R>(b,t.v);
  E e=anyE(), f=anyE("f"); X x=anyX(); auto l=localFunction(gf); l.bind(f); l(x); l.bind(e); auto k=l; l.bind(f); R y=k(x);
  for (u64 j=0;j<2;++j) vp_assert_eq(y[_0][j],value(1,2,2,e,0,x,[&](u64 i) { return t.v[_0][i][j]; }),"components of a nested range");
  vp_assert_eq(y[_1],value(2,2,2,e,0,x,[&](u64 i) { return t.v[_1][i]; }),"last component of a nested range");
  vp_cover("nested range");
}
// user-defined map from nodes to range entries
struct Map { template<class N, class P, class Y> decltype(auto) operator()(const N&, const P& p, Y&& y) const { return y[1-p[0]]; } };
VP_HARNESS(node_map) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,power<2>(vf::leaf<1,2>(),flatLexicographic()));
  std::vector<double> v(4); for (auto& a : v) a=vp_real("c");
  auto backend=istlVectorBackend(std::as_const(v));
  DiscreteGlobalBasisFunction<decltype(b),decltype(backend),Map,V2> gf(b,backend,Map{});
  check(gf,[&](const V2& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) vp_assert_eq(y[1-j],value(1,2,2,e,0,x,[&](u64 i) { return v[j*2+i]; }),"the node map selects the range entry"); },
    [&](const M22& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) for (int d=0;d<2;++d) vp_assert_eq(y[1-j][d],slope(1,2,2,e,0,d,x,[&](u64 i) { return v[j*2+i]; }),"the node map selects the derivative entry"); },6);
}
