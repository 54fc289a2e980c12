#pragma once
#include "grid.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
using namespace Dune::Functions; using u64=std::uint64_t; using Dune::FieldVector; using Dune::GeometryType;
// a knot vector: break points in increasing order, each with a multiplicity; knots are named by their break points
struct Knots { std::vector<double> at; std::vector<u64> knot;
  double operator[](u64 i) const { return at[knot[i]]; }
  u64 size() const { return knot.size(); }
  bool same(u64 i, u64 j) const { return knot[i]==knot[j]; }
  std::vector<double> values() const { std::vector<double> v; for (u64 k : knot) v.push_back(at[k]); return v; }
  // first knot of the e-th span that is not empty
  u64 span(u64 e) const { for (u64 i=0;;++i) if (!same(i,i+1)) { if (e==0) return i; --e; } }
  u64 elements() const { return at.size()-1; }
};
inline Knots breakPoints(u64 n) { Knots k; for (u64 i=0;i<n;++i) { double t=vp_real("t"); vp_assume((t>=-1000.) & (t<=1000.)); if (i>0) vp_assume(t-k.at.back()>=1e-3); k.at.push_back(t); } return k; }
inline Knots open(Knots k, u64 p) { Knots r=k; r.knot.clear(); for (u64 i=0;i<p;++i) r.knot.push_back(k.knot[0]); for (u64 i : k.knot) r.knot.push_back(i); for (u64 i=0;i<p;++i) r.knot.push_back(k.knot.back()); return r; }
// value of the i-th B-spline of order p on the s-th knot span (definition of Cox and de Boor)
inline double spline(const Knots& k, u64 i, u64 p, u64 s, double x) {
  if (s<i || s>i+p) return 0; if (p==0) return 1; double r=0;
  if (!k.same(i,i+p)) r+=(x-k[i])/(k[i+p]-k[i])*spline(k,i,p-1,s,x);
  if (!k.same(i+1,i+p+1)) r+=(k[i+p+1]-x)/(k[i+p+1]-k[i+1])*spline(k,i+1,p-1,s,x);
  return r; }
// the first and last functions of a direction belong to the facets in this direction
template<int dim, class C> void keys(const C& lc, const std::array<u64,dim>& sz, u64 local) {
  bool all=dim<=2; for (u64 z : sz) all=all && z>1; if (!all) return;
  for (u64 i=0;i<local;++i) { std::array<int,dim> side; u64 c=i, codim=0, sub=0; for (int j=0;j<dim;++j) { u64 m=c%sz[j]; c/=sz[j]; side[j]=m==0 ? 0 : m==sz[j]-1 ? 1 : -1; if (side[j]>=0) ++codim; }
    if (codim==dim) for (int j=0;j<dim;++j) sub|=u64(side[j])<<j; else for (int j=0;j<dim;++j) if (side[j]>=0) sub=2*j+side[j];
    vp_assert((lc.localKey(i).codim()==codim) & (lc.localKey(i).subEntity()==sub),"first and last functions of a direction belong to the facets of the element");
    for (u64 j=0;j<i;++j) vp_assert((lc.localKey(i).codim()!=lc.localKey(j).codim()) | (lc.localKey(i).subEntity()!=lc.localKey(j).subEntity()) | (lc.localKey(i).index()!=lc.localKey(j).index()),"functions of an element have different keys"); }
}
template<int dim, class B> void splines(const B& b, const vg::GridData<dim>& d, const std::array<Knots,dim>& k, u64 p, bool isOpen, u64 first, u64 last, bool positive=false) {
  std::array<u64,dim> n; u64 total=1; for (int i=0;i<dim;++i) { n[i]=k[i].size()-p-1; total*=n[i]; }
  vp_assert((b.dimension()==total) & (b.size()==total),"the dimension is the number of splines");
  auto v=b.localView();
  for (u64 e=first;e<last;++e) { v.bind(d.elements[e]); const auto& fe=v.tree().finiteElement(); const auto& lb=fe.localBasis();
    std::array<u64,dim> s; u64 r=e; for (int i=0;i<dim;++i) { s[i]=k[i].span(r%k[i].elements()); r/=k[i].elements(); }
    u64 local=1; std::array<u64,dim> sz; for (int i=0;i<dim;++i) { u64 lo=s[i]>p ? s[i]-p : 0, hi=s[i]<n[i] ? s[i] : n[i]-1; sz[i]=hi-lo+1; local*=sz[i]; }
    vp_assert((v.size()==local) & (fe.size()==local) & (lb.size()==local) & (fe.localCoefficients().size()==local) & (local<=b.preBasis().maxNodeSize()) & (local<=v.maxSize()),"the local functions are the splines that do not vanish on the element");
    keys<dim>(fe.localCoefficients(),sz,local);
    FieldVector<double,dim> x; std::array<double,dim> g; for (int i=0;i<dim;++i) { x[i]=vp_real("x"); vp_assume((x[i]>=0.) & (x[i]<=1.)); g[i]=k[i][s[i]]+x[i]*(k[i][s[i]+1]-k[i][s[i]]); }
    std::vector<FieldVector<double,1>> val, der; std::vector<Dune::FieldMatrix<double,1,dim>> jac; lb.evaluateFunction(x,val); lb.evaluateJacobian(x,jac); vp_assert((val.size()==local) & (jac.size()==local),"one value and Jacobian per function");
    double sum=0;
    for (u64 i=0;i<local;++i) { u64 ix=v.index(i)[0]; vp_assert(ix<total,"global indices are below the dimension"); for (u64 j=0;j<i;++j) vp_assert(v.index(j)[0]!=ix,"distinct functions of an element have distinct indices");
      double q=1; u64 c=ix; for (int j=0;j<dim;++j) { q*=spline(k[j],c%n[j],p,s[j],g[j]); c/=n[j]; }
      vp_assert_eq(val[i][0],q,"the local functions are the splines with their global number"); sum+=val[i][0]; if (positive) vp_assert(val[i][0]>=0.,"splines are not negative");
      for (int j=0;j<dim;++j) vp_assert_eq(jac[i][0][j],vp_diff(val[i][0],x[j]),"Jacobians are the derivatives of the values"); }
    if (isOpen) vp_assert_eq(sum,1.,"splines of an open knot vector sum up to one");
    lb.template evaluate<0>({},x,der); vp_assert(der.size()==local,"one value per function"); for (u64 i=0;i<local;++i) vp_assert_eq(der[i][0],val[i][0],"derivatives of order zero are the values");
    for (int j=0;j<dim;++j) { lb.template evaluate<1>({j},x,der); vp_assert(der.size()==local,"one derivative per function"); for (u64 i=0;i<local;++i) vp_assert_eq(der[i][0],jac[i][0][j],"first derivatives are the entries of the Jacobian"); }
    for (int j=0;j<dim;++j) for (int l=0;l<dim;++l) { lb.template evaluate<2>({j,l},x,der); vp_assert(der.size()==local,"one derivative per function"); for (u64 i=0;i<local;++i) vp_assert_eq(der[i][0],vp_diff(jac[i][0][j],x[l]),"second derivatives are the derivatives of the Jacobian"); }
    vp_assert(lb.order()==p,"the polynomial order is that of the splines");
  }
}
template<int dim> std::vector<GeometryType> cubes(u64 n) { return std::vector<GeometryType>(n,Dune::GeometryTypes::cube(dim)); }
// one knot vector in all directions
template<int dim> void knotVector(u64 elements, u64 p, bool makeOpen, bool repeated, bool positive=false) {
  Knots k=breakPoints(elements+1); for (u64 i=0;i<=elements;++i) for (u64 m=repeated ? vp_split(vp_u64("multiplicity",1,p+1)) : 1; m>0; --m) k.knot.push_back(i);
  Knots full=makeOpen ? open(k,p) : k; vp_assume(full.size()>p+1); u64 n=1; for (int i=0;i<dim;++i) n*=elements;
  vg::GridData<dim> d(cubes<dim>(n),0,{},true); d.is.fixed[0]=true; vg::GridView<dim> gv(d); auto t=k.values(); u64 e=vp_split(vp_u64("element",0,n-1));
  std::array<Knots,dim> ks; for (auto& x : ks) x=full; bool isOpen=makeOpen; if (!makeOpen) { isOpen=true; for (u64 i=0;i<p;++i) isOpen=isOpen && full.same(0,i+1) && full.same(full.size()-1,full.size()-2-i); }
  splines<dim>(makeBasis(gv,BasisFactory::bSpline(t,p,makeOpen)),d,ks,p,isOpen,e,e+1,positive);
}
// equidistant knots in a box, given by its corners
template<int dim> void box(std::array<unsigned,dim> elements, u64 p, bool makeOpen) {
  FieldVector<double,dim> lower, upper; std::array<Knots,dim> ks; u64 n=1;
  for (int i=0;i<dim;++i) { lower[i]=vp_real("lower"); upper[i]=vp_real("upper"); vp_assume((lower[i]>=-1000.) & (upper[i]<=1000.) & (upper[i]-lower[i]>=1e-2)); n*=elements[i];
    Knots k; for (unsigned j=0;j<=elements[i];++j) { k.at.push_back(lower[i]+j*(upper[i]-lower[i])/elements[i]); k.knot.push_back(j); } ks[i]=makeOpen ? open(k,p) : k; vp_assume(ks[i].size()>p+1); }
  vg::GridData<dim> d(cubes<dim>(n),0,{},true); d.is.fixed[0]=true; vg::GridView<dim> gv(d); u64 e=vp_split(vp_u64("element",0,n-1));
  BSplineBasis<vg::GridView<dim>> b(gv,lower,upper,elements,p,makeOpen); splines<dim>(b,d,ks,p,makeOpen,e,e+1);
}
// bound views and their copies, and rebinding
template<int dim> void history(u64 p) {
  Knots k=breakPoints(3); for (u64 i=0;i<3;++i) k.knot.push_back(i); u64 n=1; for (int i=0;i<dim;++i) n*=2;
  vg::GridData<dim> d(cubes<dim>(n),0,{},true), o(cubes<dim>(n),1,{},true); d.is.fixed[0]=o.is.fixed[0]=true; vg::GridView<dim> gv(d), gv2(o); auto t=k.values();
  auto b=makeBasis(gv,BasisFactory::bSpline(t,p)); auto b2=b; b2.update(gv2); vp_assert((b2.gridView().data==&o) & (b.gridView().data==&d) & (b2.dimension()==b.dimension()),"the basis refers to its grid view");
  u64 e=vp_split(vp_u64("element",0,n-1)), f=vp_split(vp_u64("element",0,n-1)); auto v=b.localView(), w=b.localView(); v.bind(d.elements[e]); w.bind(d.elements[e]); auto c=v; auto m=std::move(w); v.bind(d.elements[f]); auto ref=b.localView(); ref.bind(d.elements[e]); auto u=b2.localView(); u.bind(o.elements[e]);
  FieldVector<double,dim> x; for (int i=0;i<dim;++i) x[i]=vp_real("x"); std::vector<FieldVector<double,1>> r,s; ref.tree().finiteElement().localBasis().evaluateFunction(x,r);
  auto same=[&](const auto& z, const char* what) { vp_assert((z.size()==ref.size()) & (z.tree().finiteElement().size()==ref.tree().finiteElement().size()) & (z.tree().finiteElement().localCoefficients().size()==ref.tree().finiteElement().localCoefficients().size()) & (z.tree().element().id==e),what); z.tree().finiteElement().localBasis().evaluateFunction(x,s); vp_assert(s.size()==r.size(),what); for (u64 i=0;i<r.size();++i) { vp_assert_eq(s[i][0],r[i][0],what); vp_assert(z.index(i)==ref.index(i),what); } };
  v.bind(d.elements[e]); auto fe=v.tree().finiteElement(); v.bind(d.elements[f]); fe.localBasis().evaluateFunction(x,s);
  vp_assert((fe.size()==r.size()) & (s.size()==r.size()) & (fe.localBasis().size()==r.size()) & (fe.localCoefficients().size()==r.size()),"a copy of a bound finite element is bound to the same knot span"); for (u64 i=0;i<r.size();++i) vp_assert_eq(s[i][0],r[i][0],"a copy of a bound finite element is bound to the same knot span");
  same(c,"a copy of a bound view is bound to the same element"); same(m,"a moved view is bound to the same element"); same(u,"updated bases have the same functions");
}
