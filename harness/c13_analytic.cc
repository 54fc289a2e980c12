#include "grid.hh"
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using namespace Dune::Functions;
using GV = vg::GridView<2,2>; using E = vg::Entity<0,2,2>; using X = Dune::FieldVector<double,2>;
static X anyX() { X x; x[0]=vp_real("x"); x[1]=vp_real("y"); return x; }
static E anyE(Dune::GeometryType gt=Dune::GeometryTypes::simplex(2)) { return E{ vp_u64("e",0,vg::maxIndex), gt, 0 }; }
// an arbitrary differentiable function with an identity k
struct DF { u_int64_t k; X operator()(const X& x) const { return { vp_ufr("df0",k,x[0],x[1],0), vp_ufr("df1",k,x[0],x[1],0) }; } };
struct F { u_int64_t k; double operator()(const X& x) const { return vp_ufr("f",k,x[0],x[1],0); } friend DF derivative(const F& f) { return {f.k}; } };
static double f(u_int64_t k, const X& x) { return vp_ufr("f",k,x[0],x[1],0); }

VP_HARNESS(analytic) {
  vg::GridData<2,2> gd({}); GV gv(gd); E e=anyE(), e2=anyE(); X x=anyX(); u_int64_t k=vp_u64("k",0,100);
  auto gf=makeAnalyticGridViewFunction(F{k},gv);
  vp_assert_eq(gf(x),f(k,x),"global evaluation is the function");
  auto lf=localFunction(gf); vp_assert(!lf.bound(),"a new local function is not bound");
  lf.bind(e); vp_assert(lf.bound(),"bound after bind"); vp_assert(lf.localContext()==e,"the local context is the bound element");
  X y=e.geometry().global(x), y2=e2.geometry().global(x);
  vp_assert_eq(lf(x),f(k,y),"local value is the global value at the mapped point");
  auto dlf=derivative(lf); vp_assert(dlf.bound(),"the derivative of a bound function is bound"); vp_assert(dlf.localContext()==e,"the derivative is bound to the same element");
  X d=dlf(x); for (int i=0;i<2;++i) vp_assert_eq(d[i],DF{k}(y)[i],"local derivative is the global derivative at the mapped point");
  auto copy=lf; auto ldf=localFunction(derivative(gf)); ldf.bind(e); d=ldf(x); for (int i=0;i<2;++i) vp_assert_eq(d[i],DF{k}(y)[i],"local function of the derivative");
  X dg=derivative(gf)(x); for (int i=0;i<2;++i) vp_assert_eq(dg[i],DF{k}(x)[i],"global derivative");
  lf.bind(e2); vp_assert_eq(lf(x),f(k,y2),"value after rebinding"); vp_assert_eq(copy(x),f(k,y),"copies keep their element"); vp_assert(copy.localContext()==e,"copies keep their element (context)");
  lf.unbind(); vp_assert(!lf.bound(),"not bound after unbind"); vp_assert(copy.bound(),"copies stay bound");
  auto du=derivative(lf); vp_assert(!du.bound(),"the derivative of an unbound function is not bound"); du.bind(e2); d=du(x); for (int i=0;i<2;++i) vp_assert_eq(d[i],DF{k}(y2)[i],"derivative bound later");
  lf=copy; vp_assert_eq(lf(x),f(k,y),"assignment takes over value and element");
  auto g2=makeAnalyticGridViewFunction(F{k+1},gv); auto l2=localFunction(g2); l2.bind(e2); l2=copy; vp_assert_eq(l2(x),f(k,y),"assignment takes over the function");
  gf=g2; vp_assert_eq(gf(x),f(k+1,x),"grid functions can be assigned"); vp_assert_eq(copy(x),f(k,y),"local functions are independent of the grid function");
  vp_assert(gf.entitySet().gridView().data==gv.data,"the entity set belongs to the grid view");
  vp_cover("analytic");
}
// non-assignable function objects and lambdas
VP_HARNESS(analytic_lambda) {
  vg::GridData<2,2> gd({}); GV gv(gd); E e=anyE(), e2=anyE(); X x=anyX(); double a=vp_real("a"), b=vp_real("b");
  auto make=[](double c){ return [c](const X& z){ return c*z[0]+z[1]; }; };
  auto gf=makeGridViewFunction(make(a),gv), hf=makeGridViewFunction(make(b),gv);
  auto lf=localFunction(gf), lh=localFunction(hf); lf.bind(e); lh.bind(e2); lh=lf;
  X y=e.geometry().global(x); vp_assert_eq(lh(x),a*y[0]+y[1],"assignment of local functions of lambdas"); gf=hf; vp_assert_eq(gf(x),b*x[0]+x[1],"assignment of grid functions of lambdas");
  bool thrown=false; try { auto d=derivative(gf); (void)d; } catch (Dune::NotImplemented&) { thrown=true; } vp_assert(thrown,"a missing derivative is reported");
  auto same=makeGridViewFunction(gf,gv); vp_assert_eq(same(x),b*x[0]+x[1],"a grid function is passed on unchanged");
  vp_cover("lambda");
}
struct Outer { double operator()(double a, double b, double c) const { return vp_ufr("outer",0,a,b,c); } };
VP_HARNESS(composed) {
  vg::GridData<2,2> gd({}); GV gv(gd); E e=anyE(), e2=anyE(); X x=anyX();
  auto f0=makeAnalyticGridViewFunction(F{0},gv), f1=makeAnalyticGridViewFunction(F{1},gv), f2=makeAnalyticGridViewFunction(F{2},gv);
  auto c=makeComposedGridFunction(Outer{},f0,f1,std::cref(f2));
  vp_assert_eq(c(x),vp_ufr("outer",0,f(0,x),f(1,x),f(2,x)),"composition at a global point");
  auto l=localFunction(c); vp_assert(!l.bound(),"a new local function is not bound"); l.bind(e); vp_assert(l.bound(),"bound after bind"); vp_assert(l.localContext()==e,"the local context is the bound element");
  X y=e.geometry().global(x); vp_assert_eq(l(x),vp_ufr("outer",0,f(0,y),f(1,y),f(2,y)),"composition of the local functions, in order");
  auto copy=l; l.bind(e2); X y2=e2.geometry().global(x); vp_assert_eq(l(x),vp_ufr("outer",0,f(0,y2),f(1,y2),f(2,y2)),"composition after rebinding");
  vp_assert_eq(copy(x),vp_ufr("outer",0,f(0,y),f(1,y),f(2,y)),"copies keep their element");
  l.unbind(); vp_assert(!l.bound(),"not bound after unbind"); vp_assert(copy.bound(),"copies stay bound");
  vp_assert(c.entitySet().gridView().data==gv.data,"the entity set is that of the components");
  // nested composition and type erasure
  auto sq=makeComposedGridFunction([](double a){ return a*a; },std::ref(c)); vp_assert_eq(sq(x),c(x)*c(x),"composition of a composition");
  auto ls=localFunction(sq); ls.bind(e); double v=vp_ufr("outer",0,f(0,y),f(1,y),f(2,y)); vp_assert_eq(ls(x),v*v,"local composition of a composition");
  GridViewFunction<double(X),GV> w(c); auto lw=localFunction(w); lw.bind(e2); vp_assert_eq(lw(x),vp_ufr("outer",0,f(0,y2),f(1,y2),f(2,y2)),"type-erased composition");
  vp_cover("composed");
}
