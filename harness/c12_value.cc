// Value semantics of type-erased functions. Ghost state: the number of live
// wrapped objects and of live heap blocks; every wrapped object carries a
// liveness mark, so that double destruction or use after destruction fails.
#include "prelude.hh"
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/polymorphicsmallobject.hh>
#include <dune/functions/common/interfaces.hh>
using namespace Dune::Functions;

static long live = 0;            // ghost: live wrapped objects
static bool throwing = false;    // ghost: does the next copy throw
struct CopyFailed {};
constexpr int alive = 4711, dead = 815;

// payload with an abstract value k; big selects stack buffer or heap storage
template<int pad> struct Fun {
  double k; int mark; int order; double padding[pad];
  explicit Fun(double k_, int o=0) : k(k_), mark(alive), order(o) { ++live; }
  Fun(const Fun& o) : k(o.k), mark(alive), order(o.order) { vp_assert(o.mark==alive,"copies are made from live objects"); if (throwing) throw CopyFailed(); ++live; }
  Fun(Fun&& o) : k(o.k), mark(alive), order(o.order) { vp_assert(o.mark==alive,"moves are made from live objects"); o.k=-77; ++live; }
  ~Fun() { vp_assert(mark==alive,"a wrapped object is destroyed only once"); mark=dead; --live; }
  double operator()(double x) const { vp_assert(mark==alive,"only live objects are evaluated"); return vp_ufr("f",order,k,x,0); }
  friend Fun derivative(const Fun& f) { vp_assert(f.mark==alive,"only live objects are differentiated"); return Fun(f.k,f.order+1); }
};

// abstract value of a wrapper
struct Abs { int kind=0; double k=0; };   // 0 empty, 1 small, 2 large

// ---- DifferentiableFunction
using DF = DifferentiableFunction<double(double)>;
struct DFAdapter {
  using W = DF;
  static W make(const Abs& a) { if (a.kind==0) return W(); if (a.kind==1) return W(Fun<1>(a.k)); return W(Fun<9>(a.k)); }
  static bool full(const W& w) { return static_cast<bool>(w); }
  static void same(const W& w, const Abs& a) {
    vp_assert(full(w)==(a.kind!=0),"a wrapper is empty exactly if its source is");
    if (a.kind==0) return;
    double x=vp_real("x");
    vp_assert_eq(w(x),vp_ufr("f",0,a.k,x,0),"evaluation is forwarded to the stored function");
    auto d=derivative(w); vp_assert_eq(d(x),vp_ufr("f",1,a.k,x,0),"derivative is that of the stored function");
    auto dd=derivative(d); vp_assert_eq(dd(x),vp_ufr("f",2,a.k,x,0),"second derivative is that of the stored function");
    vp_assert((w.target_type()==typeid(Fun<1>)) == (a.kind==1),"target type is the type of the stored function");
  }
};
// ---- PolymorphicSmallObject itself, several buffer sizes
struct Base { virtual ~Base() {} virtual Base* clone() const = 0; virtual Base* clone(void*) const = 0; virtual Base* move(void*) = 0; virtual double get() const = 0; virtual void set(double) = 0; };
template<int pad> struct Der : Base {
  Fun<pad> f; explicit Der(double k) : f(k) {}
  Der* clone() const override { return new Der(*this); }
  Der* clone(void* b) const override { return new(b) Der(*this); }
  Der* move(void* b) override { return new(b) Der(std::move(*this)); }
  double get() const override { vp_assert(f.mark==alive,"only live objects are used"); return f.k; }
  void set(double k) override { f.k=k; }
};
template<std::size_t bufferSize> struct PSOAdapter {
  using W = PolymorphicSmallObject<Base,bufferSize>;
  static W make(const Abs& a) { if (a.kind==0) return W(); if (a.kind==1) return W(Der<1>(a.k)); return W(Der<9>(a.k)); }
  static bool full(const W& w) { return static_cast<bool>(w); }
  static void same(W& w, const Abs& a) {
    vp_assert(full(w)==(a.kind!=0),"a wrapper is empty exactly if its source is");
    if (a.kind==0) return;
    vp_assert_eq(w.get().get(),a.k,"the stored object has the value of its source");
    vp_assert_eq(static_cast<const W&>(w).get().get(),a.k,"the stored object has the value of its source (const)");
    vp_assert(w.bufferUsed()==((a.kind==1?sizeof(Der<1>):sizeof(Der<9>))<=bufferSize),"small objects are stored in the buffer");
    w.get().set(a.k+1); vp_assert_eq(w.get().get(),a.k+1,"the stored object is mutable"); w.get().set(a.k);
  }
};

template<class A> void check(typename A::W& w, Abs& a) { A::same(w,a); }
static Abs anyState(const char* n) { Abs a; a.kind=(int)vp_split(vp_u64(n,0,2)); a.k=vp_real("k"); return a; }

// a moved-from wrapper may hold anything, but can be assigned and destroyed
template<class A> void history() {
  long heap0 = (long)vp_live_heap();
  {
    Abs a=anyState("kindA"), b=anyState("kindB"); double v=vp_real("v");
    using W=typename A::W;
    W x(A::make(a)), y(A::make(b));
    check<A>(x,a); check<A>(y,b);
    switch (vp_split(vp_u64("op",0,8))) {
      case 0: { W z(x); check<A>(z,a); check<A>(x,a); x=A::make(b); check<A>(z,a); break; }       // copy
      case 1: { W z(std::move(x)); check<A>(z,a); x=y; check<A>(x,b); check<A>(z,a); break; }       // move
      case 2: { W& r=(x=y); vp_assert(&r==&x,"assignment returns the object"); check<A>(x,b); check<A>(y,b); y=A::make(a); check<A>(x,b); check<A>(y,a); break; }
      case 3: { W& r=(x=std::move(y)); vp_assert(&r==&x,"assignment returns the object"); check<A>(x,b); y=A::make(a); check<A>(y,a); check<A>(x,b); break; }
      case 4: { W& r=x; x=r; check<A>(x,a); break; }                                                  // self copy assignment
      case 5: { W& r=x; x=std::move(r); vp_assert(A::full(x)==(a.kind!=0),"self move assignment keeps the object"); check<A>(x,a); break; }
      case 6: { std::swap(x,y); check<A>(x,b); check<A>(y,a); std::swap(x,x); check<A>(x,b); break; }
      case 7: { x=A::make({(int)vp_split(vp_u64("kindV",0,2)),v}); W z(y); z=x; check<A>(y,b); break; }
      case 8: { // a copy that fails leaves objects that can be destroyed and assigned
        throwing=true; bool failed=false;
        try { x=y; } catch (CopyFailed&) { failed=true; }
        throwing=false;
        vp_assert(failed==(b.kind!=0),"a failing copy is reported");
        check<A>(y,b);
        if (!failed) check<A>(x,b);
        if (vp_bool("reassign")) { x=y; check<A>(x,b); }
        break; }
    }
    vp_cover("history");
  }
  vp_assert(live==0,"every wrapped object is destroyed exactly once");
  vp_assert((long)vp_live_heap()==heap0,"no memory is leaked");
}
VP_HARNESS(differentiable_function) { history<DFAdapter>(); }
VP_HARNESS(small_object_56) { history<PSOAdapter<56>>(); }
VP_HARNESS(small_object_0) { history<PSOAdapter<0>>(); }
VP_HARNESS(small_object_200) { history<PSOAdapter<200>>(); }
VP_HARNESS(copy_of_failing) {
  long heap0=(long)vp_live_heap();
  {
    Abs a=anyState("kind"); DF x(DFAdapter::make(a)); throwing=true; bool failed=false;
    try { DF z(x); } catch (CopyFailed&) { failed=true; }
    throwing=false;
    vp_assert(failed==(a.kind!=0),"a failing copy is reported"); DFAdapter::same(x,a);
    vp_cover("failed copy");
  }
  vp_assert(live==0,"every wrapped object is destroyed exactly once");
  vp_assert((long)vp_live_heap()==heap0,"no memory is leaked");
}
// functions without derivative
struct NoDer { double k; double operator()(double x) const { return k*x; } };
VP_HARNESS(no_derivative) {
  double k=vp_real("k"), x=vp_real("x"); DF f=NoDer{k};
  vp_assert_eq(f(x),k*x,"evaluation is forwarded (function without derivative)");
  bool thrown=false; try { auto d=derivative(f); } catch (Dune::NotImplemented&) { thrown=true; }
  vp_assert(thrown,"a missing derivative is reported");
  // wrapping by reference to a named function copies it
  NoDer g{k}; DF h(g); g.k=k+1; vp_assert_eq(h(x),k*x,"the wrapper stores a copy");
  const NoDer cg{k}; DF c(cg); vp_assert_eq(c(x),k*x,"a const function can be wrapped");
  // wrapper of a wrapper of the same type is a copy, not a nesting
  DF i(h); DF j(std::move(i)); vp_assert(j.target_type()==typeid(NoDer),"copies are not nested");
  DF e; vp_assert(!e,"default constructed wrappers are empty"); e=h; vp_assert_eq(e(x),k*x,"an empty wrapper can be assigned"); e=g; vp_assert_eq(e(x),(k+1)*x,"a function can be assigned");
  vp_cover("no derivative");
}
