#pragma once
#define VG_AFFINE
#include "grid.hh"
#include <cmath>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory; using namespace Dune::GeometryTypes; using u64=std::uint64_t; using Dune::FieldVector; using Dune::FieldMatrix;
// element 0 and, at each of its vertices but the first, one further element, so all mesh sizes differ
template<int dim> struct Patch {
  vg::GridData<dim> d; vg::GridView<dim> gv; FieldVector<double,dim+1> h;
  Patch(bool fixedIds=false) : d(std::vector<Dune::GeometryType>(dim+1,simplex(dim)),0,{},true), gv(d) {
    auto& t=d.is.table[dim]; d.is.fixed[0]=true; u64 next=dim+1; t.resize(dim+1); for (u64 i=0;i<=dim;++i) t[0].push_back(i);
    for (u64 k=1;k<=dim;++k) { t[k].push_back(k); for (u64 i=1;i<=dim;++i) t[k].push_back(next++); } d.is.tableSize[dim]=next;
    double a=d.elements[0].geometry().volume(); h[0]=std::pow(a,1./dim); for (u64 k=1;k<=dim;++k) h[k]=std::pow((a+d.elements[k].geometry().volume())/2,1./dim);
    auto g=d.elements[0].geometry(); g.det();
    auto& ids=d.grid.ids; ids.firstNamed=fixedIds ? 0 : 1; ids.named=dim+1; for (u64 k=0;k<=dim;++k) for (u64 i=0;i<=dim;++i) ids.vertexIds[k][i]=1000-10*t[k][i]+(i==1 ? 15 : 0);
  }
  const auto& e() const { return d.elements[0]; }
};
// edges of element 0 are not degenerate (they cannot be, the Jacobian is invertible; the solver need not prove it)
inline void properEdges(const vg::Entity<0,2,2>& e) { auto re=Dune::referenceElement<double,2>(e.gt); for (int i=0;i<3;++i) { auto t=e.geometry().global(re.position(re.subEntity(i,1,1,2),2))-e.geometry().global(re.position(re.subEntity(i,1,0,2),2)); vp_assume(t.two_norm2()>0); } }
// the unit normal of an edge: the tangent from the vertex with the smaller id to the one with the larger id, rotated by a quarter turn
template<class E, class IdSet> FieldVector<double,2> normal(const E& e, const IdSet& ids, int i) {
  auto re=Dune::referenceElement<double,2>(e.gt); int a=re.subEntity(i,1,0,2), b=re.subEntity(i,1,1,2);
  auto t=e.geometry().global(re.position(b,2))-e.geometry().global(re.position(a,2)); t/=t.two_norm(); if (vp_split(ids.subId(e,a,2)>ids.subId(e,b,2))) t*=-1.;
  return {-t[1],t[0]};
}
// the functional a local function is dual to, given the values of a function and its derivatives in global coordinates
template<int dim, class At, class Nrm> double functional(const Dune::LocalKey& k, const FieldVector<double,dim+1>& h, bool normalDofs, const At& at, const Nrm& nrm) {
  auto re=Dune::referenceElement<double,dim>(simplex(dim)); auto x=re.position(k.subEntity(),k.codim());
  if ((int)k.codim()==dim) {
    if (k.index()==0) return at.value(x);
    double s=h[k.subEntity()];
    if ((int)k.index()<=dim) return s*at.gradient(x)[k.index()-1];
    auto H=at.hessian(x); int i=k.index()-dim-1; return s*s*(i==0 ? H[0][0] : i==1 ? H[0][dim>1?1:0] : H[dim>1?1:0][dim>1?1:0]);
  }
  if (normalDofs) { auto g=at.gradient(x); auto n=nrm(k.subEntity()); double r=0; for (int i=0;i<dim;++i) r+=g[i]*n[i]; return r; }
  return at.value(x);
}
// a bound local function at a point as a function in global coordinates (chain rule for affine geometries)
template<int dim, class FE, class G> struct Shapes { using T=typename FE::Traits::LocalBasisType::Traits; using X=FieldVector<double,dim>;
  std::vector<FieldVector<double,1>> v; std::vector<typename T::JacobianType> dv; std::vector<typename T::HessianType> ddv; FieldMatrix<double,dim,dim> K;
  Shapes(const FE& fe, const G& g, const X& x, int order) : K(g.jacobianInverse(x)) { if (order==0) fe.localBasis().evaluateFunction(x,v); if (order==1) fe.localBasis().evaluateJacobian(x,dv); if (order==2) fe.localBasis().evaluateHessian(x,ddv); } };
template<int dim, class S> struct Shape { using X=FieldVector<double,dim>; const S& s; u64 i;
  double value(const X&) const { return s.v[i][0]; }
  X gradient(const X&) const { X r(0.); for (int a=0;a<dim;++a) for (int b=0;b<dim;++b) r[a]+=s.K[b][a]*s.dv[i][0][b]; return r; }
  FieldMatrix<double,dim,dim> hessian(const X&) const { FieldMatrix<double,dim,dim> r(0.); for (int a=0;a<dim;++a) for (int b=0;b<dim;++b) for (int c=0;c<dim;++c) for (int d=0;d<dim;++d) r[a][b]+=s.K[c][a]*s.K[d][b]*s.ddv[i][c][d]; return r; } };
template<int dim, class F> void duality(const F& factory, bool normalDofs) {
  Patch<dim> p; if constexpr (dim==2) if (normalDofs) for (const auto& e : p.d.elements) properEdges(e);
  auto b=makeBasis(p.gv,factory); auto v=b.localView(); v.bind(p.e()); auto g=p.e().geometry(); const auto& fe=v.tree().finiteElement(); using FE=std::decay_t<decltype(fe)>;
  auto nrm=[&](int i) { if constexpr (dim==2) return normal(p.e(),p.gv.grid().globalIdSet(),i); else return FieldVector<double,dim>(0.); };
  using S=Shapes<dim,FE,decltype(g)>; auto re=Dune::referenceElement<double,dim>(simplex(dim));
  for (u64 j=0;j<fe.size();++j) { auto k=fe.localCoefficients().localKey(j); S s(fe,g,re.position(k.subEntity(),k.codim()),(int)k.codim()!=dim ? normalDofs : k.index()==0 ? 0 : (int)k.index()<=dim ? 1 : 2);
    for (u64 i=0;i<fe.size();++i) vp_assert_eq(functional<dim>(k,p.h,normalDofs,Shape<dim,S>{s,i},nrm),i==j ? 1. : 0.,"each global functional is one on its own function and zero on all others"); }
}
// a function given by arbitrary values and derivatives
template<int dim> struct Fn { u64 k=0;
  double ev(const char* n, u64 i, const FieldVector<double,dim>& x) const { return vp_ufr(n,i,x[0],dim>1 ? x[dim>1?1:0] : 0.,dim>2 ? x[dim>2?2:0] : 0.); }
  double value(const FieldVector<double,dim>& x) const { return ev("f",k,x); }
  FieldVector<double,dim> gradient(const FieldVector<double,dim>& x) const { FieldVector<double,dim> r; for (int i=0;i<dim;++i) r[i]=ev("df",i,x); return r; }
  FieldMatrix<double,dim,dim> hessian(const FieldVector<double,dim>& x) const { FieldMatrix<double,dim,dim> r; for (int i=0;i<dim;++i) for (int j=0;j<dim;++j) r[i][j]=ev("ddf",i<j ? i*4+j : j*4+i,x); return r; }
  double operator()(const FieldVector<double,dim>& x) const { return value(x); }
  struct D2 { Fn f; FieldMatrix<double,dim,dim> operator()(const FieldVector<double,dim>& x) const { return f.hessian(x); } };
  struct D { Fn f; FieldVector<double,dim> operator()(const FieldVector<double,dim>& x) const { return f.gradient(x); } friend D2 derivative(const D& d) { return {d.f}; } };
  friend D derivative(const Fn& f) { return {f}; } };
// the same function with a range, Jacobian and Hessian of one row
template<int dim> struct RowFn { Fn<dim> f; FieldVector<double,1> operator()(const FieldVector<double,dim>& x) const { return {f.value(x)}; }
  struct D2 { Fn<dim> f; std::array<FieldMatrix<double,dim,dim>,1> operator()(const FieldVector<double,dim>& x) const { return {f.hessian(x)}; } };
  struct D { Fn<dim> f; FieldMatrix<double,1,dim> operator()(const FieldVector<double,dim>& x) const { FieldMatrix<double,1,dim> r; r[0]=f.gradient(x); return r; } friend D2 derivative(const D& d) { return {d.f}; } };
  friend D derivative(const RowFn& f) { return {f.f}; } };
template<int dim, class F> void interpolation(const F& factory, bool normalDofs) {
  Patch<dim> p; if constexpr (dim==2) if (normalDofs) for (const auto& e : p.d.elements) properEdges(e);
  auto b=makeBasis(p.gv,factory); auto v=b.localView(); v.bind(p.e()); const auto& fe=v.tree().finiteElement();
  auto nrm=[&](int i) { if constexpr (dim==2) return normal(p.e(),p.gv.grid().globalIdSet(),i); else return FieldVector<double,dim>(0.); };
  for (u64 j=0;j<fe.size();++j) { auto key=fe.localCoefficients().localKey(j); const auto& desc=fe.localInterpolation().functionalDescriptor(j); std::array<unsigned,dim> o{};
    if ((int)key.codim()==dim && key.index()>0) { if ((int)key.index()<=dim) o[key.index()-1]=1; else { int i=key.index()-dim-1; ++o[i==2 ? dim-1 : 0]; ++o[i==0 ? 0 : dim-1]; } }
    bool normal=normalDofs && (int)key.codim()!=dim, partial=false; for (unsigned k : o) partial=partial || k>0;
    vp_assert((desc.isNormalDerivative()==normal) & (desc.normalDerivativeOrder()==(normal ? 1u : 0u)) & (desc.isPartialDerivative()==partial) & (desc.partialDerivativeOrder()==o),"descriptors tell which functional belongs to a function"); }
  Fn<dim> f; std::vector<double> c, row; fe.localInterpolation().interpolate(RowFn<dim>{f},row); vp_assert(row.size()==fe.size(),"one coefficient per function");
  for (u64 j=0;j<fe.size();++j) vp_assert_eq(row[j],functional<dim>(fe.localCoefficients().localKey(j),p.h,normalDofs,f,nrm),"interpolation evaluates the global functionals");
  if constexpr (dim>1) { fe.localInterpolation().interpolate(f,c); vp_assert(c.size()==fe.size(),"one coefficient per function"); for (u64 j=0;j<fe.size();++j) vp_assert_eq(row[j],c[j],"functions with ranges of one entry are interpolated like scalar functions"); }
}
// derivatives are the derivatives of the values, in any point
template<int dim, bool hess=true, class F> void derivatives(const F& factory, bool edges, int part=-1) {
  Patch<dim> p; if constexpr (dim==2) if (edges) for (const auto& e : p.d.elements) properEdges(e);
  auto b=makeBasis(p.gv,factory); auto v=b.localView(); v.bind(p.e()); const auto& fe=v.tree().finiteElement(); const auto& lb=fe.localBasis(); using T=typename std::decay_t<decltype(lb)>::Traits;
  FieldVector<double,dim> x; for (int i=0;i<dim;++i) x[i]=vp_real("x");
  std::vector<FieldVector<double,1>> val, pd; std::vector<typename T::JacobianType> jac; lb.evaluateFunction(x,val); lb.evaluateJacobian(x,jac);
  vp_assert(fe.type()==p.e().type(),"the finite element has the type of the element it is bound to");
  vp_assert((lb.size()==fe.size()) & (val.size()==fe.size()) & (jac.size()==fe.size()),"one value and Jacobian per function");
  for (u64 i=0;i<fe.size();++i) for (int j=0;j<dim;++j) vp_assert_eq(jac[i][0][j],vp_diff(val[i][0],x[j]),"Jacobians are the derivatives of the values");
  std::array<unsigned,dim> o{}; lb.partial(o,x,pd); vp_assert(pd.size()==fe.size(),"one partial derivative per function"); for (u64 i=0;i<fe.size();++i) vp_assert_eq(pd[i][0],val[i][0],"partial derivatives of order zero are the values");
  for (int j=0;j<dim;++j) { o={}; o[j]=1; lb.partial(o,x,pd); for (u64 i=0;i<fe.size();++i) vp_assert_eq(pd[i][0],jac[i][0][j],"first partial derivatives are the entries of the Jacobian"); }
  if constexpr (hess) { std::vector<typename T::HessianType> H; lb.evaluateHessian(x,H); vp_assert(H.size()==fe.size(),"one Hessian per function");
    for (u64 i=0;i<fe.size();++i) for (int j=0;j<dim;++j) for (int k=0;k<dim;++k) vp_assert_eq(H[i][j][k],vp_diff(jac[i][0][j],x[k]),"Hessians are the derivatives of the Jacobians");
    for (int j=0;j<dim;++j) for (int k=0;k<dim;++k) { o={}; ++o[j]; ++o[k]; lb.partial(o,x,pd); for (u64 i=0;i<fe.size();++i) vp_assert_eq(pd[i][0],H[i][j][k],"second partial derivatives are the entries of the Hessian"); } }
}
// copies of a bound finite element stay what they are when the original moves on
template<int dim, class F> void copies(const F& factory, bool edges) {
  Patch<dim> p(true); if constexpr (dim==2) if (edges) for (const auto& e : p.d.elements) properEdges(e); for (const auto& e : p.d.elements) e.geometry().det();
  auto b=makeBasis(p.gv,factory); auto v=b.localView(), w=b.localView(), u=b.localView(); v.bind(p.e()); w.bind(p.e()); u.bind(p.d.elements[1]);
  using FE=std::decay_t<decltype(v.tree().finiteElement())>; FE c=v.tree().finiteElement(), a=u.tree().finiteElement(); a=v.tree().finiteElement(); u=v; v.bind(p.d.elements[1]);
  const auto& ref=w.tree().finiteElement(); FieldVector<double,dim> x; for (int i=0;i<dim;++i) x[i]=vp_real("x");
  std::vector<FieldVector<double,1>> r,s; std::vector<double> ci,cj; ref.localBasis().evaluateFunction(x,r); if constexpr (dim>1) ref.localInterpolation().interpolate(Fn<dim>{},ci);
  auto same=[&](const FE& f) { f.localBasis().evaluateFunction(x,s); for (u64 i=0;i<r.size();++i) vp_assert_eq(s[i][0],r[i][0],"copies evaluate the functions of the element they were bound to"); if constexpr (dim>1) { f.localInterpolation().interpolate(Fn<dim>{},cj); for (u64 i=0;i<ci.size();++i) vp_assert_eq(cj[i],ci[i],"copies evaluate the functionals of the element they were bound to"); } };
  same(c); same(a); same(u.tree().finiteElement());
}
