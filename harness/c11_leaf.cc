#include "c11_common.hh"
VP_HARNESS(leaf) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,vf::leaf<1,3>(0));
  std::vector<double> v(3); for (auto& c : v) c=vp_real("c");
  auto gf=makeDiscreteGlobalBasisFunction<double>(b,v);
  vp_assert(&gf.basis()==&b,"the function knows its basis"); vp_assert(gf.entitySet().gridView().data==gv.data,"the entity set belongs to the grid view of the basis");
  auto coeff=[&](u64 i) { return v[i]; };
  check(gf,[&](double y, const E& e, const X& x) { vp_assert_eq(y,value(1,3,localSize(1,e,0,2),e,0,x,coeff),"the value is the linear combination of the shape functions"); },
    [&](const X& y, const E& e, const X& x) { for (int d=0;d<2;++d) vp_assert_eq(y[d],slope(1,3,localSize(1,e,0,2),e,0,d,x,coeff),"the derivative is the derivative in global coordinates"); });
}
VP_HARNESS(leaf_fv1) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,vf::leaf<1,3>());
  Dune::BlockVector<V1> v(3); for (auto& c : v) c=vp_real("c");
  auto gf=makeDiscreteGlobalBasisFunction<V1>(b,istlVectorBackend(v));
  auto coeff=[&](u64 i) { return v[i][0]; };
  check(gf,[&](const V1& y, const E& e, const X& x) { vp_assert_eq(y[0],value(1,3,2,e,0,x,coeff),"the value is the linear combination of the shape functions"); },
    [&](const M12& y, const E& e, const X& x) { for (int d=0;d<2;++d) vp_assert_eq(y[0][d],slope(1,3,2,e,0,d,x,coeff),"the derivative is the derivative in global coordinates"); });
}
// vector-valued coefficients: implicit product space
VP_HARNESS(leaf_block) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,vf::leaf<1,3>());
  std::vector<V2> v(3); for (auto& c : v) for (auto& a : c) a=vp_real("c");
  auto gf=makeDiscreteGlobalBasisFunction<V2>(b,v);
  check(gf,[&](const V2& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) vp_assert_eq(y[j],value(1,3,2,e,0,x,[&](u64 i) { return v[i][j]; }),"block coefficients give the components of the range"); },
    [&](const M22& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) for (int d=0;d<2;++d) vp_assert_eq(y[j][d],slope(1,3,2,e,0,d,x,[&](u64 i) { return v[i][j]; }),"derivative with block coefficients"); });
}
// vector-valued shape functions
VP_HARNESS(leaf_vector) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,vf::leaf<1,3,2>());
  std::vector<double> v(3); for (auto& c : v) c=vp_real("c");
  auto gf=makeDiscreteGlobalBasisFunction<V2>(b,v); auto coeff=[&](u64 i) { return v[i]; };
  check(gf,[&](const V2& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) vp_assert_eq(y[j],value(1,3,2,e,j,x,coeff),"components of vector-valued shape functions"); },
    [&](const M22& y, const E& e, const X& x) { for (u64 j=0;j<2;++j) for (int d=0;d<2;++d) vp_assert_eq(y[j][d],slope(1,3,2,e,j,d,x,coeff),"derivative of vector-valued shape functions"); });
}
// vector-valued shape functions with vector-valued coefficients
VP_HARNESS(leaf_vector_block) {
  vg::GridData<2,2> gd({}); GV gv(gd); auto b=makeBasis(gv,vf::leaf<1,2,2>());
  std::vector<V2> v(2); for (auto& c : v) for (auto& a : c) a=vp_real("c");
  auto gf=makeDiscreteGlobalBasisFunction<M22>(b,v);
  E e=anyE(); X x=anyX(); auto l=localFunction(gf); l.bind(e); auto y=l(x);
  for (u64 k=0;k<2;++k) for (u64 j=0;j<2;++j) vp_assert_eq(y[k][j],value(1,2,2,e,j,x,[&](u64 i) { return v[i][k]; }),"entries of matrix-valued functions");
  vp_cover("matrix valued");
}
// ownership: copies of the coefficients and the basis, later changes need a rebind
VP_HARNESS(ownership) {
  vg::GridData<2,2> gd({}); GV gv(gd); E e=anyE(); X x=anyX();
  std::vector<double> v(3); for (auto& c : v) c=vp_real("c");
  using Basis=decltype(makeBasis(gv,vf::leaf<1,3>())); auto basis=std::make_shared<const Basis>(makeBasis(gv,vf::leaf<1,3>()));
  auto backend=istlVectorBackend(std::as_const(v));
  auto vec=std::make_shared<const decltype(backend)>(backend); auto map=std::make_shared<const HierarchicNodeToRangeMap>();
  using GF=DiscreteGlobalBasisFunction<Basis,decltype(backend),HierarchicNodeToRangeMap,double>;
  std::optional<GF> gf(std::in_place,basis,vec,map); basis.reset(); vec.reset(); map.reset();
  auto l=localFunction(*gf); auto d=derivative(*gf); auto ld=localFunction(d);
  GridViewFunction<double(X),GV> w(*gf); auto lw=localFunction(w);
  gf.reset();
  l.bind(e); auto coeff=[&](u64 i) { return v[i]; };
  vp_assert_eq(l(x),value(1,3,2,e,0,x,coeff),"local functions keep what they need alive");
  ld.bind(e); X y=ld(x); for (int k=0;k<2;++k) vp_assert_eq(y[k],slope(1,3,2,e,0,k,x,coeff),"derivatives keep what they need alive");
  for (auto& c : v) c=vp_real("new");
  l.bind(e); vp_assert_eq(l(x),value(1,3,2,e,0,x,coeff),"binding again reads the current coefficients");
  lw.bind(e); vp_assert_eq(lw(x),value(1,3,2,e,0,x,coeff),"type-erased discrete function");
  auto owned=makeDiscreteGlobalBasisFunction<double>(makeBasis(gv,vf::leaf<1,3>()),v); auto lo=localFunction(owned); lo.bind(e);
  vp_assert_eq(lo(x),value(1,3,2,e,0,x,coeff),"a temporary basis is stored");
  vp_cover("ownership");
}
