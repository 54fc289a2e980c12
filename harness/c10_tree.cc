#include "c10_common.hh"
using V2=Dune::FieldVector<double,2>;
struct F2 { V2 operator()(const X& x) const { return { f(0,x), f(1,x) }; } };
struct F3 { double a=0; double operator()(const X& x) const { return f(2,x); } };
VP_HARNESS(power_bi) {
  World w; auto b=makeBasis(w.gv,power<2>(vf::leaf<1,2>(),blockedInterleaved()));
  std::vector<V2> v(vp_split(vp_u64("oldSize",0,2))), old(2,V2(0)); for (auto& x : v) for (auto& y : x) y=vp_real("old"); for (u64 i=0;i<v.size();++i) old[i]=v[i];
  interpolate(b,v,F2{});
  vp_assert(v.size()==2,"the vector is resized to the basis");
  for (u64 i=0;i<2;++i) for (u64 c=0;c<2;++c) checkEntry(w,1,2,2,i,true,v[i][c],old[i][c],c,2);
}
VP_HARNESS(power_bits) {
  World w; auto b=makeBasis(w.gv,power<2>(vf::leaf<1,2>(),blockedInterleaved()));
  std::vector<V2> v(2), old; for (auto& x : v) for (auto& y : x) y=vp_real("old"); old=v;
  std::vector<std::array<char,2>> bv(2); for (auto& x : bv) for (auto& y : x) y=(char)vp_u64("bit",0,1);
  interpolate(b,v,F2{},bv);
  for (u64 i=0;i<2;++i) for (u64 c=0;c<2;++c) checkEntry(w,1,2,2,i,bv[i][c]!=0,v[i][c],old[i][c],c,2);
}
VP_HARNESS(power_flat) {
  World w; auto b=makeBasis(w.gv,power<2>(vf::leaf<1,2>(),flatLexicographic()));
  std::vector<double> v(4), old; for (auto& x : v) x=vp_real("old"); old=v;
  interpolate(b,v,F2{});
  for (u64 i=0;i<2;++i) for (u64 c=0;c<2;++c) checkEntry(w,1,2,2,i,true,v[c*2+i],old[c*2+i],c,2);
}
VP_HARNESS(dynamic_flat) {
  World w; auto b=makeBasis(w.gv,power(vf::leaf<1,2>(),2,flatInterleaved()));
  std::vector<double> v(4), old; for (auto& x : v) x=vp_real("old"); old=v;
  interpolate(b,v,[](const X& x) { return std::vector<double>{ f(0,x), f(1,x) }; });
  for (u64 i=0;i<2;++i) for (u64 c=0;c<2;++c) checkEntry(w,1,2,2,i,true,v[i*2+c],old[i*2+c],c,2);
}
// a two component node and a scalar one, as in Taylor-Hood
template<class Op> void composed(Op&& op) {
  World w; auto b=makeBasis(w.gv,composite(power<2>(vf::leaf<1,2>(),blockedInterleaved()),vf::leaf<2,2>(),blockedLexicographic()));
  Dune::TupleVector<std::vector<V2>,std::vector<double>> v, old;
  v[_0].resize(2); v[_1].resize(2); for (auto& x : v[_0]) for (auto& y : x) y=vp_real("old"); for (auto& y : v[_1]) y=vp_real("old");
  old=v; op(w,b,v,old);
}
template<class W, class V> void check3(const W& w, const V& v, const V& old, bool s0, bool s1, bool s2) {
  for (u64 i=0;i<2;++i) {
    checkEntry(w,1,2,2,i,s0,v[_0][i][0],old[_0][i][0],0,2); checkEntry(w,1,2,2,i,s1,v[_0][i][1],old[_0][i][1],1,2);
    checkEntry(w,2,2,2,i,s2,v[_1][i],old[_1][i],2,2);
  }
}
VP_HARNESS(composite_all) { composed([](auto& w, auto& b, auto& v, auto& old) {
  interpolate(b,v,[](const X& x) { return Dune::TupleVector<V2,double>(V2{f(0,x),f(1,x)},f(2,x)); }); check3(w,v,old,true,true,true); }); }
VP_HARNESS(subspace_velocity) { composed([](auto& w, auto& b, auto& v, auto& old) {
  interpolate(subspaceBasis(b,_0),v,F2{}); check3(w,v,old,true,true,false); }); }
VP_HARNESS(subspace_component) { composed([](auto& w, auto& b, auto& v, auto& old) {
  interpolate(subspaceBasis(b,_0,1),v,[](const X& x) { return f(1,x); }); check3(w,v,old,false,true,false); }); }
VP_HARNESS(subspace_pressure) { composed([](auto& w, auto& b, auto& v, auto& old) {
  interpolate(subspaceBasis(b,_1),v,F3{}); check3(w,v,old,false,false,true); }); }
VP_HARNESS(subspace_bits) { composed([](auto& w, auto& b, auto& v, auto& old) {
  Dune::TupleVector<std::vector<std::array<char,2>>,std::vector<char>> bv; bv[_0].resize(2); bv[_1].resize(2);
  for (auto& x : bv[_0]) for (auto& y : x) y=(char)vp_u64("bit",0,1); for (auto& y : bv[_1]) y=(char)vp_u64("bit",0,1);
  interpolate(subspaceBasis(b,_0),v,F2{},bv);
  for (u64 i=0;i<2;++i) {
    for (u64 c=0;c<2;++c) checkEntry(w,1,2,2,i,bv[_0][i][c]!=0,v[_0][i][c],old[_0][i][c],c,2);
    checkEntry(w,2,2,2,i,false,v[_1][i],old[_1][i],2,2);
  } }); }
VP_HARNESS(node_map) { composed([](auto& w, auto& b, auto& v, auto& old) {
  // all components from one flat range, in reverse order
  auto map=[](const auto& node, const auto& path, const auto& y) { if constexpr (decltype(path[_0])::value==0) return y[2-path[_1]]; else return y[0]; };
  interpolate(b,v,[](const X& x) { return std::array<double,3>{ f(2,x), f(1,x), f(0,x) }; },Dune::Functions::Imp::AllTrueBitSetVector(),map); check3(w,v,old,true,true,true); }); }
// vector-valued shape functions
VP_HARNESS(vector_valued) {
  World w; auto b=makeBasis(w.gv,vf::leaf<1,3,2>());
  std::vector<double> v(3), old; for (auto& x : v) x=vp_real("old"); old=v;
  interpolate(b,v,F2{});
  for (u64 k=0;k<3;++k) {
    bool any=false, ok=false;
    for (const auto& e : w.gd.elements) for (u64 i=0;i<2;++i) { X p=e.geometry().global(vf::node(1,e.id,i)); bool hit=vf::dofIndex(1,e.id,i,3)==k; any=any|hit; ok=ok|(hit & (v[k]==vf::functional(1,e.id,i,f(0,p),f(1,p)))); }
    vp_assert(!any | ok, "vector-valued functions are interpolated by vector-valued elements");
    vp_assert(any | (v[k]==old[k]), "other entries are unchanged");
  }
  vp_cover("vector valued");
}
