#include "grid.hh"
#include <dune/functions/common/geometryinancestor.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using namespace Dune::Functions;
using GV = vg::GridView<2,2>; using E = vg::Entity<0,2,2>; using X = Dune::FieldVector<double,2>;
constexpr int maxDepth = VP_THOROUGH ? 5 : 3;
static X anyX() { X x; x[0]=vp_real("x"); x[1]=vp_real("y"); return x; }
// an element with n ancestors below the ancestor searched for
static E anyE(int lvl) { return E{ vp_u64("e",0,vg::maxIndex), Dune::GeometryTypes::simplex(2), lvl }; }
static X up(E e, int n, X x) { for (int i=0;i<n;++i) { x=e.geometryInFather().global(x); e=e.father(); } return x; }
static X down(E e, int n, X x) { if (n==0) return x; return e.geometryInFather().local(down(e.father(),n-1,x)); }
static E ancestor(E e, int n) { for (int i=0;i<n;++i) e=e.father(); return e; }
static bool eq(const X& a, const X& b) { return (a[0]==b[0]) & (a[1]==b[1]); }
using GIA = GeometryInAncestor<E>;
static void same(const GIA& g, const E& e, int n, const char*) {
  X x=anyX();
  vp_assert(eq(g.global(x),up(e,n,x)),"global coordinates are mapped through all father geometries, from fine to coarse");
  vp_assert(eq(g.local(x),down(e,n,x)),"local coordinates are mapped back through all father geometries, from coarse to fine");
  vp_assert(g.fineElement()==e,"the fine element is the bound one");
  vp_assert((g.coarseElement()==ancestor(e,n)) & (g.coarseElement().level()==e.level()-n),"the coarse element is the ancestor where the search stopped");
}
VP_HARNESS(ancestor) {
  int L=maxDepth, n=(int)vp_split(vp_u64("depth",0,maxDepth)), m=(int)vp_split(vp_u64("depth2",0,1)); E e=anyE(L), e2=anyE(L);
  GIA g; auto until=[&](int k){ return [k,L](const E& x){ return x.level()>L-k; }; };
  const E& c=g.bind(e,until(n)); vp_assert(c==ancestor(e,n),"bind returns the coarse element"); same(g,e,n,"");
  g.bind(e2,until(m)); same(g,e2,m,"rebound"); g.bind(e,until(n)); same(g,e,n,"");
  vp_cover("ancestor");
}
VP_HARNESS(ancestor_rvalue) {
  int L=maxDepth, n=(int)vp_split(vp_u64("depth",0,maxDepth)); E e=anyE(L); GIA g;
  const E& c=g.bind(E(e),[&](const E& x){ return x.level()>L-n; }); vp_assert(c==ancestor(e,n),"bind of a temporary element returns the coarse element"); same(g,e,n,"");
  GIA h(g); same(h,e,n,"");
  vp_cover("rvalue");
}
VP_HARNESS(ancestor_copy) {
  int L=maxDepth, n=(int)vp_split(vp_u64("depth",0,maxDepth)); E e=anyE(L), e2=anyE(L); auto f=[&](const E& x){ return x.level()>L-n; };
  GIA g; g.bind(e,f); GIA h(g); same(h,e,n,"copy"); E ext=e; GIA k(g,ext); same(k,e,n,"copy with external element"); vp_assert(&k.fineElement()==&ext,"the external fine element is used");
  g.bind(e2,f); same(h,e,n,"copy independent"); same(k,e,n,"copy independent"); same(g,e2,n,"");
  vp_cover("copy");
}
// an arbitrary grid function on another grid view (gv id 1)
template<class R> struct LF {
  std::uint64_t k; int order; E e{}; bool b=false;
  void bind(const E& x) { e=x; b=true; } void unbind() { b=false; } bool bound() const { return b; } const E& localContext() const { return e; }
  static R value(std::uint64_t k,int order,const E& e,const X& x) { return R(vp_ufr("lf",k*1000000000+order*100000000+e.id,x[0],x[1],0)); }
  R operator()(const X& x) const { vp_assert(b,"inner local functions are bound before evaluation"); return value(k,order,e,x); }
  friend LF<X> derivative(const LF& f) requires std::is_same_v<R,double> { return {f.k,f.order+1,f.e,f.b}; }
};
template<class R> struct GF {
  using EntitySet=GridViewEntitySet<GV,0>; std::uint64_t k; EntitySet es; int order=0;
  R operator()(const X& x) const { return R(vp_ufr("gf",k*10+order,x[0],x[1],0)); }
  friend GF<X> derivative(const GF& f) requires std::is_same_v<R,double> { return {f.k,f.es,f.order+1}; }
  friend LF<R> localFunction(const GF& f) { return {f.k,f.order}; }
  const EntitySet& entitySet() const { return es; }
};
// the entity set of the coarse function contains exactly one element on the chain of fathers
static int chain(const GV& coarse, E e) { int n=(int)vp_split(vp_u64("depth",0,maxDepth)); for (int i=0;i<n;++i) { vp_assume(!coarse.contains(e)); e=e.father(); } vp_assume(coarse.contains(e)); return n; }
VP_HARNESS(coarse_on_fine) {
  vg::GridData<2,2> gd({}), gc({},1); GV gv(gd), cv(gc); E e=anyE(maxDepth), e2=anyE(maxDepth); X x=anyX(); std::uint64_t k=vp_u64("k",0,9);
  int n=chain(cv,e); vp_assume(cv.contains(e2));
  CoarseFunctionOnFineGridView f(GF<double>{k,cv},gv);
  vp_assert_eq(f(x),vp_ufr("gf",k*10,x[0],x[1],0),"global evaluation is that of the wrapped function"); vp_assert_eq(derivative(f)(x)[0],vp_ufr("gf",k*10+1,x[0],x[1],0),"global derivative is that of the wrapped function");
  vp_assert(f.entitySet().gridView().data==&gd,"the entity set is that of the fine grid view");
  auto l=localFunction(f); vp_assert(!l.bound(),"a new local function is not bound"); l.bind(e); vp_assert(l.bound(),"bound after bind"); vp_assert(l.localContext()==e,"the local context is the fine element");
  X y=up(e,n,x); E a=ancestor(e,n);
  vp_assert_eq(l(x),LF<double>::value(k,0,a,y),"the coarse function is evaluated on the ancestor at the mapped point");
  auto d=derivative(l); vp_assert_eq(d(x)[0],LF<X>::value(k,1,a,y)[0],"the derivative is that of the coarse function on the ancestor"); vp_assert(d.bound(),"the derivative is bound like its function"); vp_assert(d.localContext()==e,"the derivative is bound to the same element");
  auto ld=localFunction(derivative(f)); ld.bind(e); vp_assert_eq(ld(x)[0],LF<X>::value(k,1,a,y)[0],"local function of the derivative");
  auto c(l); l.bind(e2); vp_assert_eq(l(x),LF<double>::value(k,0,e2,x),"value after rebinding to an element of the coarse set"); vp_assert_eq(c(x),LF<double>::value(k,0,a,y),"copies keep their element"); vp_assert(c.localContext()==e,"copies keep their element (context)");
  l.bind(e); vp_assert_eq(l(x),LF<double>::value(k,0,a,y),"value after binding again"); l.unbind(); vp_assert(!l.bound() & c.bound(),"unbind");
  vp_cover("coarse on fine");
}
static double cut(double a) { return vp_select(a<0,0,a); }
static double maxr(double a, double b) { return vp_select(a<b,b,a); }
static double minr(double a, double b) { return vp_select(a<b,a,b); }
// l1 distance to the reference simplex / cube
template<class Y> static double dist(const Y& x, bool simplex) {
  if constexpr (Y::dimension==1) return cut(maxr(x[0]-1,-x[0]));
  else { double s = simplex ? 1-cut(minr(x[1],1)) : 1; return cut(maxr(x[1]-1,-x[1]))+cut(maxr(x[0]-s,-x[0])); }
}
template<class Y> static void bounded(const Y& y) { for (std::size_t i=0;i<y.size();++i) vp_assume((y[i]<1e6) & (y[i]>-1e6)); } // distances are finite
template<int dim> struct FineSetting {
  using GV = vg::GridView<dim,dim>; using E = vg::Entity<0,dim,dim>; using X = Dune::FieldVector<double,dim>;
  template<class R> struct LF {
    std::uint64_t k; int order; E e{}; bool b=false;
    void bind(const E& x) { e=x; b=true; } void unbind() { b=false; } bool bound() const { return b; } const E& localContext() const { return e; }
    static R value(std::uint64_t k,int order,const E& e,const X& x) { return R(vp_ufr("lf",k*1000000000+order*100000000+e.id,x[0],dim>1?x[dim>1?1:0]:0.,0)); }
    R operator()(const X& x) const { vp_assert(b,"inner local functions are bound before evaluation"); return value(k,order,e,x); }
    friend LF<X> derivative(const LF& f) requires std::is_same_v<R,double> { return {f.k,f.order+1,f.e,f.b}; }
  };
  template<class R> struct GF {
    using EntitySet=GridViewEntitySet<GV,0>; std::uint64_t k; EntitySet es; int order=0;
    R operator()(const X& x) const { return R(vp_ufr("gf",k*10+order,x[0],0,0)); }
    friend GF<X> derivative(const GF& f) requires std::is_same_v<R,double> { return {f.k,f.es,f.order+1}; }
    friend LF<R> localFunction(const GF& f) { return {f.k,f.order}; }
    const EntitySet& entitySet() const { return es; }
  };
  vg::GridData<dim,dim> gd{{}}, gc{{},1}; GV gv{gd}, fv{gc}; E e; X x; std::uint64_t k; bool simplex;
  GF<double> gf; decltype(FineFunctionOnCoarseGridView(std::declval<GF<double>>(),std::declval<GV>())) f;
  FineSetting(bool sx) : e{ vp_u64("e",0,vg::maxIndex), sx ? Dune::GeometryTypes::simplex(dim) : Dune::GeometryTypes::cube(dim), 0 }, k(vp_u64("k",0,9)), simplex(sx), gf{k,fv}, f(gf,gv) { for (int i=0;i<dim;++i) x[i]=vp_real("x"); }
  static double v(const LF<double>&, double d) { return d; }
};
// elements of both grid views: the fine function is used directly
VP_HARNESS(fine_common) {
  FineSetting<2> s(true); auto& f=s.f; auto x=s.x;
  vp_assert_eq(f(x),vp_ufr("gf",s.k*10,x[0],0,0),"global evaluation is that of the wrapped function"); vp_assert_eq(derivative(f)(x)[0],vp_ufr("gf",s.k*10+1,x[0],0,0),"global derivative is that of the wrapped function");
  vp_assert(f.entitySet().gridView().data==&s.gd,"the entity set is that of the coarse grid view");
  auto l=localFunction(f); vp_assert(!l.bound(),"a new local function is not bound"); l.bind(s.e); vp_assert(l.bound(),"bound after bind"); vp_assert(l.localContext()==s.e,"the local context is the coarse element");
  vp_assume(s.fv.contains(s.e));
  vp_assert_eq(l(x),LF<double>::value(s.k,0,s.e,x),"on common elements the fine function is used directly"); auto d=derivative(l); vp_assert_eq(d(x)[0],LF<X>::value(s.k,1,s.e,x)[0],"derivative on common elements"); vp_assert(d.bound() && d.localContext()==s.e,"the derivative is bound to the same element");
  auto ld=localFunction(derivative(f)); ld.bind(s.e); vp_assert_eq(ld(x)[0],LF<X>::value(s.k,1,s.e,x)[0],"local function of the derivative on common elements");
  auto c(l); E o=anyE(0); vp_assume(s.fv.contains(o)); c.bind(o); vp_assert_eq(c(x),LF<double>::value(s.k,0,o,x),"copies can be rebound"); vp_assert_eq(l(x),LF<double>::value(s.k,0,s.e,x),"independent of the source");
  c.unbind(); vp_assert(!c.bound() & l.bound(),"unbind"); vp_cover("common element");
}
// search among the children; op selects what is evaluated there
template<int dim> static void children(bool simplex) {
  FineSetting<dim> s(simplex); auto x=s.x; auto e=s.e; using LFd=typename FineSetting<dim>::template LF<double>; using LFx=typename FineSetting<dim>::template LF<typename FineSetting<dim>::X>;
  auto l=localFunction(s.f); l.bind(e); vp_assume(!s.fv.contains(e));
  auto c0=*e.hbegin(1), c1=*(++e.hbegin(1)); vp_assume(c0.id!=c1.id); vp_assume(s.fv.contains(c0)); vp_assume(s.fv.contains(c1));
  auto x0=c0.geometryInFather().local(x), x1=c1.geometryInFather().local(x); bounded(x0); bounded(x1); double d0=dist(x0,simplex), d1=dist(x1,simplex); vp_assume(d0!=d1);
  bool first=d0<d1; auto op=vp_split(vp_u64("op",0,2));
  if (op==0) { double v=l(x); vp_assert_eq(v,vp_select(first,LFd::value(s.k,0,c0,x0),LFd::value(s.k,0,c1,x1)),"the fine function is evaluated on the child closest to the point (the one containing it, if any)"); }
  else if (op==1) { auto d=derivative(l); vp_assert(d.bound() && d.localContext()==e,"the derivative is bound to the coarse element"); vp_assert_eq(d(x)[0],vp_select(first,LFx::value(s.k,1,c0,x0)[0],LFx::value(s.k,1,c1,x1)[0]),"the derivative is that of the fine function on the child closest to the point"); }
  else { auto c(l); l.unbind(); vp_assert_eq(c(x),vp_select(first,LFd::value(s.k,0,c0,x0),LFd::value(s.k,0,c1,x1)),"copies are evaluated on the child closest to the point"); }
  vp_cover("child");
}
VP_HARNESS(fine_children_line) { children<1>(true); }
VP_HARNESS(fine_children_triangle) { children<2>(true); }
VP_HARNESS(fine_children_quad) { children<2>(false); }
// the search descends until an element of the fine set is found; the first child contains the point
VP_HARNESS(fine_deep) {
  FineSetting<1> s(true); auto x=s.x; auto e=s.e; using LFd=FineSetting<1>::LF<double>; auto l=localFunction(s.f); l.bind(e); int n=(int)vp_split(vp_u64("depth",1,maxDepth));
  for (int i=0;i<n;++i) { vp_assume(!s.fv.contains(e)); auto it=e.hbegin(i+1); auto c0=*it, c1=*(++it); auto x0=c0.geometryInFather().local(x), x1=c1.geometryInFather().local(x); bounded(x0); bounded(x1);
    vp_assume((0<=x0[0]) & (x0[0]<=1)); vp_assume(dist(x1,true)>0); e=c0; x=x0; }
  vp_assume(s.fv.contains(e));
  vp_assert_eq(l(s.x),LFd::value(s.k,0,e,x),"the search descends until an element of the fine set is found");
  vp_cover("descendant");
}
