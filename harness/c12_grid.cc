// Type-erased local functions and grid functions, and functions from callables.
#include "grid.hh"
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/common/localfunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
using namespace Dune::Functions;
using GV = vg::GridView<2,2>; using E = vg::Entity<0,2,2>; using X = Dune::FieldVector<double,2>;
using ES = GridViewEntitySet<GV,0>;
static long live=0; constexpr int alive=4711, dead=815;
struct Life { int mark=alive; Life() { ++live; } Life(const Life& o) { vp_assert(o.mark==alive,"copies are made from live objects"); ++live; } Life& operator=(const Life&)=default; ~Life() { vp_assert(mark==alive,"a wrapped object is destroyed only once"); mark=dead; --live; } };

// an arbitrary grid function: value depends on identity, order of derivative, element and point
template<class R,int pad> struct LF : Life {
  std::uint64_t k; int order; E e{}; bool b=false; double padding[pad];
  LF(std::uint64_t k_, int o) : k(k_), order(o) {}
  void bind(const E& x) { e=x; b=true; }
  void unbind() { b=false; }
  bool bound() const { return b; }
  const E& localContext() const { return e; }
  R operator()(const X& x) const { vp_assert(mark==alive,"only live objects are evaluated"); return R(vp_ufr("lf",k*1000000000+order*100000000+e.id,x[0],x[1],0)); }
  friend LF<X,pad> derivative(const LF& f) requires std::is_same_v<R,double> { LF<X,pad> d(f.k,f.order+1); d.e=f.e; d.b=f.b; return d; }
};
template<class R,int pad> struct GF : Life {
  using EntitySet=ES; std::uint64_t k; int order; ES es; double padding[pad];
  GF(std::uint64_t k_, const GV& gv, int o=0) : k(k_), order(o), es(gv) {}
  R operator()(const X& x) const { return R(vp_ufr("gf",k*10+order,x[0],x[1],0)); }
  friend GF<X,pad> derivative(const GF& f) requires std::is_same_v<R,double> { return GF<X,pad>(f.k,f.es.gridView(),f.order+1); }
  friend LF<R,pad> localFunction(const GF& f) { return {f.k,f.order}; }
  const ES& entitySet() const { return es; }
};
static X anyX() { X x; x[0]=vp_real("x"); x[1]=vp_real("y"); return x; }
static E anyE() { return E{ vp_u64("e",0,vg::maxIndex), Dune::GeometryTypes::simplex(2), 0 }; }

using LW = LocalFunction<double(X),E>;
static double val(std::uint64_t k,int order,const E& e,const X& x) { return vp_ufr("lf",k*1000000000+order*100000000+e.id,x[0],x[1],0); }
static LW make(bool big, std::uint64_t k) { if (big) return LW(LF<double,9>(k,0)); return LW(LF<double,1>(k,0)); }

VP_HARNESS(local_function) {
  long heap0=(long)vp_live_heap();
  {
    bool ba=vp_bool("bigA"), bb=vp_bool("bigB"); std::uint64_t k=vp_u64("k",0,9), m=vp_u64("m",0,9); X x=anyX(); E e=anyE(), e2=anyE();
    LW a=make(ba,k), b=make(bb,m);
    vp_assert(!a.bound(),"a new local function is not bound");
    a.bind(e); vp_assert(a.bound() & !b.bound(),"binding is forwarded"); vp_assert(a.localContext()==e,"the local context is forwarded"); vp_assert_eq(a(x),val(k,0,e,x),"evaluation is forwarded to the stored function");
    { auto d=derivative(a); vp_assert(d.bound(),"the derivative is bound like its function"); vp_assert(d.localContext()==e,"the derivative is bound to the same element"); vp_assert_eq(d(x)[0],val(k,1,e,x),"derivative is that of the stored function"); d.bind(e2); vp_assert_eq(d(x)[0],val(k,1,e2,x),"the derivative can be rebound"); vp_assert(a.localContext()==e,"the function is independent of its derivative"); }
    switch (vp_split(vp_u64("op",0,5))) {
      case 0: { LW c(a); c.bind(e2); vp_assert_eq(a(x),val(k,0,e,x),"copies are bound independently"); vp_assert_eq(c(x),val(k,0,e2,x),"copies behave like the original"); a.unbind(); vp_assert(c.bound(),"copies stay bound"); break; }
      case 1: { b=a; vp_assert_eq(b(x),val(k,0,e,x),"assignment takes over the bound function"); a.bind(e2); vp_assert(b.localContext()==e,"assigned functions are independent"); break; }
      case 2: { b=std::move(a); vp_assert_eq(b(x),val(k,0,e,x),"move assignment takes over the bound function"); break; }
      case 3: { LW c(std::move(a)); vp_assert_eq(c(x),val(k,0,e,x),"move construction takes over the bound function"); vp_assert(c.bound(),"move construction keeps the element"); a=b; a.bind(e2); vp_assert_eq(a(x),val(m,0,e2,x),"a moved-from function can be assigned"); break; }
      case 4: { a.unbind(); vp_assert(!a.bound(),"unbinding is forwarded"); a.bind(e2); vp_assert_eq(a(x),val(k,0,e2,x),"evaluation after rebinding"); break; }
      case 5: { LW c; c=a; vp_assert_eq(c(x),val(k,0,e,x),"an empty local function can be assigned"); LW d; c=d; vp_assert(!c,"assigning an empty function empties"); break; }
    }
    vp_cover("local function");
  }
  vp_assert(live==0,"every wrapped object is destroyed exactly once"); vp_assert((long)vp_live_heap()==heap0,"no memory is leaked");
}
template<int pad> void gridFunction() {
  using W = GridViewFunction<double(X),GV>; long heap0=(long)vp_live_heap();
  {
    vg::GridData<2,2> gd({}), gd2({},1); GV gv(gd), gv2(gd2); std::uint64_t k=vp_u64("k",0,9), m=vp_u64("m",0,9); X x=anyX(); E e=anyE();
    W a(GF<double,pad>(k,gv)), b(GF<double,5>(m,gv2));
    vp_assert_eq(a(x),vp_ufr("gf",k*10,x[0],x[1],0),"evaluation is forwarded to the stored function"); vp_assert_eq(derivative(a)(x)[0],vp_ufr("gf",k*10+1,x[0],x[1],0),"derivative is that of the stored function");
    vp_assert(a.entitySet().gridView().data==&gd,"the entity set is forwarded"); vp_assert(b.entitySet().gridView().data==&gd2,"the entity set is forwarded");
    auto l=localFunction(a); l.bind(e); vp_assert_eq(l(x),val(k,0,e,x),"the local function is that of the stored function");
    { auto ld=localFunction(derivative(a)); ld.bind(e); vp_assert_eq(ld(x)[0],val(k,1,e,x),"local function of the derivative"); auto dl=derivative(l); vp_assert_eq(dl(x)[0],val(k,1,e,x),"derivative of the local function"); }
    switch (vp_split(vp_u64("op",0,3))) {
      case 0: { W c(a); a=b; vp_assert_eq(c(x),vp_ufr("gf",k*10,x[0],x[1],0),"copies are independent"); vp_assert_eq(a(x),vp_ufr("gf",m*10,x[0],x[1],0),"assignment takes over the value"); vp_assert(c.entitySet().gridView().data==&gd,"copies keep the entity set"); break; }
      case 1: { a=std::move(b); vp_assert_eq(a(x),vp_ufr("gf",m*10,x[0],x[1],0),"move assignment takes over the value"); vp_assert_eq(l(x),val(k,0,e,x),"local functions survive changes of the grid function"); break; }
      case 2: { W c(std::move(a)); vp_assert_eq(c(x),vp_ufr("gf",k*10,x[0],x[1],0),"move construction takes over the value"); break; }
      case 3: { W c; W d(c); vp_assert(!d,"copies of empty functions are empty"); d=a; vp_assert_eq(d(x),vp_ufr("gf",k*10,x[0],x[1],0),"empty functions can be assigned"); break; }
    }
    vp_cover("grid function");
  }
  vp_assert(live==0,"every wrapped object is destroyed exactly once"); vp_assert((long)vp_live_heap()==heap0,"no memory is leaked");
}
VP_HARNESS(grid_function_small) { gridFunction<1>(); }
VP_HARNESS(grid_function_large) { gridFunction<9>(); }

// functions from callables
struct C { double k; int n; Life life; double operator()(const double& x) const { return vp_ufr("c",n,k,x,0); } };
VP_HARNESS(callables) {
  {
    double k=vp_real("k"), x=vp_real("x"); C c0{k,0}, c1{k,1}, c2{k,2};
    auto f=makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),C(c0),C(c1),C(c2));
    vp_assert_eq(f(x),vp_ufr("c",0,k,x,0),"the first callable is the function"); auto d=derivative(f); vp_assert_eq(d(x),vp_ufr("c",1,k,x,0),"the second callable is the derivative"); auto dd=derivative(d); vp_assert_eq(dd(x),vp_ufr("c",2,k,x,0),"the third callable is the second derivative");
    bool thrown=false; try { auto ddd=derivative(dd); } catch (Dune::NotImplemented&) { thrown=true; } vp_assert(thrown,"a missing derivative is reported");
    auto g=f; auto e=derivative(g); vp_assert_eq(e(x),vp_ufr("c",1,k,x,0),"derivative of a copy");
    DifferentiableFunction<double(double)> w(f); vp_assert_eq(derivative(derivative(w))(x),vp_ufr("c",2,k,x,0),"type-erased function from callables");
    auto one=makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),C(c0)); vp_assert_eq(one(x),vp_ufr("c",0,k,x,0),"a single callable is the function");
    // callables are stored by value when passed as rvalue, by reference when passed as lvalue
    auto r=makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),c0,c1); c0.k=k+1; vp_assert_eq(derivative(r)(x),vp_ufr("c",1,k,x,0),"derivative given by a named callable");
    vp_cover("callables");
  }
  vp_assert(live==0,"every wrapped object is destroyed exactly once");
}
