#include "c10_common.hh"
struct F { double operator()(const X& x) const { return f(0,x); } };
VP_HARNESS(leaf_all) {
  World w; u64 minLocal=vp_split(vp_u64("minLocal",0,1));
  auto b=makeBasis(w.gv,vf::leaf<1,3>(minLocal));
  std::vector<double> v(vp_split(vp_u64("oldSize",0,4))), old(3,0.0);
  for (auto& x : v) x=vp_real("old");
  for (u64 i=0;i<3 && i<v.size();++i) old[i]=v[i];
  interpolate(b,v,F{});
  vp_assert(v.size()==3, "the vector is resized to the basis");
  for (u64 i=0;i<3;++i) checkEntry(w,1,3,2,i,true,v[i],old[i],0,minLocal);
}
template<class BV> void bits(BV&& bv) {
  World w; auto b=makeBasis(w.gv,vf::leaf<1,3>());
  std::vector<double> v(3), old; for (auto& x : v) x=vp_real("old"); old=v;
  interpolate(b,v,F{},bv);
  for (u64 i=0;i<3;++i) checkEntry(w,1,3,2,i,bool(bv[i]),v[i],old[i],0,2);
}
VP_HARNESS(leaf_bits_char) { std::vector<char> bv(3); for (auto& x : bv) x=(char)vp_u64("bit",0,1); bits(bv); }
VP_HARNESS(leaf_bits_bool) { std::vector<bool> bv(3); for (u64 i=0;i<3;++i) bv[i]=vp_bool("bit"); bits(bv); }
VP_HARNESS(leaf_backend) {
  World w; auto b=makeBasis(w.gv,vf::leaf<1,3>());
  Dune::BlockVector<double> v(3); std::vector<double> old(3); for (u64 i=0;i<3;++i) old[i]=v[i]=vp_real("old");
  std::vector<char> bv(3); for (auto& x : bv) x=(char)vp_u64("bit",0,1);
  auto vb=istlVectorBackend(v); auto bb=istlVectorBackend(bv);
  interpolate(b,vb,F{},bb);
  for (u64 i=0;i<3;++i) checkEntry(w,1,3,2,i,bool(bv[i]),v[i],old[i],0,2);
}
VP_HARNESS(leaf_lambda_field) {
  World w; auto b=makeBasis(w.gv,vf::leaf<1,3>());
  std::vector<Dune::FieldVector<double,1>> v(3); std::vector<double> old(3); for (u64 i=0;i<3;++i) old[i]=v[i][0]=vp_real("old");
  interpolate(b,v,[](const X& x){ return Dune::FieldVector<double,1>(f(0,x)); });
  for (u64 i=0;i<3;++i) checkEntry(w,1,3,2,i,true,v[i][0],old[i],0,2);
}
// a grid function with its own local functions is used as it is
struct GF {
  using Domain=X; using Range=double; using EntitySet=GridViewEntitySet<GV,0>; using Element=E;
  struct LF { const E* e=nullptr; using Domain=X; void bind(const E& x) { e=&x; } void unbind() { e=nullptr; } bool bound() const { return e; } const E& localContext() const { return *e; }
    double operator()(const X& x) const { vp_assert(e!=nullptr,"a local function is bound before it is evaluated"); return vp_ufr("lf",e->id,x[0],x[1],0); } };
  GV gv; EntitySet entitySet() const { return EntitySet(gv); }
  double operator()(const X& x) const { return f(0,x); }
  friend LF localFunction(const GF&) { return {}; }
};
VP_HARNESS(leaf_gridfunction) {
  World w; auto b=makeBasis(w.gv,vf::leaf<1,3>());
  std::vector<double> v(3), old; for (auto& x : v) x=vp_real("old"); old=v;
  interpolate(b,v,GF{w.gv});
  for (u64 k=0;k<3;++k) {
    bool any=false, ok=false;
    for (const auto& e : w.gd.elements) for (u64 i=0;i<2;++i) { X p=vf::node(1,e.id,i); bool hit=vf::dofIndex(1,e.id,i,3)==k; any=any|hit; ok=ok|(hit & (v[k]==vf::functional(1,e.id,i,vp_ufr("lf",e.id,p[0],p[1],0)))); }
    vp_assert(!any | ok, "the local function of a grid function is used on each element");
    vp_assert(any | (v[k]==old[k]), "entries without basis functions are unchanged");
  }
  vp_cover("grid function");
}
// interpolation using derivatives
struct DF { X operator()(const X& x) const { return { vp_ufr("df0",0,x[0],x[1],0), vp_ufr("df1",0,x[0],x[1],0) }; } };
struct F1 { double operator()(const X& x) const { return f(0,x); } friend DF derivative(const F1&) { return {}; } };
VP_HARNESS(leaf_derivative) {
  World w; auto b=makeBasis(w.gv,vf::leaf<1,3,1,2,true>());
  std::vector<double> v(3), old; for (auto& x : v) x=vp_real("old"); old=v;
  std::vector<char> bv(3); for (auto& x : bv) x=(char)vp_u64("bit",0,1);
  interpolate(b,v,F1{},bv);
  for (u64 k=0;k<3;++k) {
    bool any=false, ok=false;
    for (const auto& e : w.gd.elements) for (u64 i=0;i<2;++i) { X p=e.geometry().global(vf::node(1,e.id,i)); bool hit=(vf::dofIndex(1,e.id,i,3)==k) & (bv[k]!=0); any=any|hit; ok=ok|(hit & (v[k]==vf::functional(1,e.id,i,f(0,p),DF{}(p)[1]))); }
    vp_assert(!any | ok, "interpolation gets the derivative of the function on the element");
    vp_assert(any | (v[k]==old[k]), "other entries are unchanged");
  }
  vp_cover("derivative");
}
