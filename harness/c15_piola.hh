#pragma once
#define VG_AFFINE
#include "grid.hh"
#include <dune/geometry/quadraturerules.hh>
// quadrature (dune-geometry) by contract: some fixed rule per geometry type and order, with arbitrary points and weights
namespace vg {
  template<int d> const Dune::QuadratureRule<double,d>& rule(const Dune::GeometryType& t, int p) {
    static Dune::QuadratureRule<double,d> rules[2][16]; vp_assert((p>=0) & (p<16) & ((int)t.dim()==d) & (t.isSimplex() | t.isCube()),"quadrature of an order the contract covers"); bool cube=!t.isSimplex(); auto& r=rules[cube][p];
    if (r.empty()) for (std::uint64_t k=0;k<2;++k) { Dune::FieldVector<double,d> x; for (int i=0;i<d;++i) x[i]=vp_ufr("quadraturePoint",((d*2+cube)*16+p)*16+k*4+i,0,0,0); r.push_back(Dune::QuadraturePoint<double,d>(x,vp_ufr("quadratureWeight",((d*2+cube)*16+p)*16+k,0,0,0))); }
    return r; }
}
namespace Dune {
  template<> inline const QuadratureRule<double,1>& QuadratureRules<double,1>::_rule(const GeometryType& t, int p, QuadratureType::Enum) const { return vg::rule<1>(t,p); }
  template<> inline const QuadratureRule<double,2>& QuadratureRules<double,2>::_rule(const GeometryType& t, int p, QuadratureType::Enum) const { return vg::rule<2>(t,p); }
  template<> inline const QuadratureRule<double,3>& QuadratureRules<double,3>::_rule(const GeometryType& t, int p, QuadratureType::Enum) const { return vg::rule<3>(t,p); }
}
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
using namespace Dune::Functions; using namespace Dune::GeometryTypes; using u64=std::uint64_t; using Dune::FieldVector; using Dune::FieldMatrix; using Dune::GeometryType;
// two elements with a common facet (facet s0 of the first, s1 of the second), vertices numbered as given
template<int dim> struct Pair {
  vg::GridData<dim> d; vg::GridView<dim> gv;
  Pair(GeometryType a, GeometryType b, int s0, int s1, u64 numbering=0) : d({a,b},0,{},true), gv(d) {
    d.is.fixed[0]=true; d.is.glue={true,1,s0,s1};
    u64 n=0; auto& t=d.is.table[dim]; t.resize(2);
    for (u64 e=0;e<2;++e) { u64 m=Dune::referenceElement<double,dim>(e ? b : a).size(dim); for (u64 i=0;i<m;++i) t[e].push_back(n+(numbering==0 ? i : numbering==1 ? m-1-i : numbering==2 ? ((m-1)*i+1+e)%m : numbering==3 ? (i+1+e)%m : ((m==3 ? 2 : 3)*i+2)%m)); n+=m; }
    d.is.tableSize[dim]=n;
  }
};
// the transformation of vector fields: contravariant (fluxes) or covariant (circulations)
template<int dim, bool cov, class G> FieldVector<double,dim> push(const G& g, const FieldVector<double,dim>& v) {
  FieldVector<double,dim> r(0.), x(0.); auto K=g.jacobianInverse(x); double w=g.integrationElement(x);
  for (int i=0;i<dim;++i) for (int j=0;j<dim;++j) r[i]+=cov ? K[j][i]*v[j] : g.J(i,j)*v[j]/w; return r; }
template<int dim, bool cov, class G> FieldVector<double,dim> pull(const G& g, const FieldVector<double,dim>& v) {
  FieldVector<double,dim> r(0.), x(0.); auto K=g.jacobianInverse(x); double w=g.integrationElement(x);
  for (int i=0;i<dim;++i) for (int j=0;j<dim;++j) r[i]+=cov ? g.J(j,i)*v[j] : K[i][j]*v[j]*w; return r; }
template<int dim, class V> FieldVector<double,dim> vec(const V& v) { FieldVector<double,dim> r; for (int i=0;i<dim;++i) r[i]=v[i]; return r; }
// an arbitrary vector field in local coordinates
template<int dim> struct Field { FieldVector<double,dim> operator()(const FieldVector<double,dim>& x) const { FieldVector<double,dim> r; for (int i=0;i<dim;++i) r[i]=vp_ufr("f",i,x[0],x[1],dim>2 ? x[dim>2?2:0] : 0.); return r; } };
template<int dim, bool cov, class F> void transformed(const F& factory, GeometryType a, GeometryType b, int s0, int s1, u64 numbering=0) {
  Pair<dim> p(a,b,s0,s1,numbering); FieldVector<double,dim> x; for (int i=0;i<dim;++i) x[i]=vp_real("x"); auto bs=makeBasis(p.gv,factory); for (const auto& e : p.d.elements) e.geometry().det();
  for (u64 e=0;e<2;++e) { auto v=bs.localView(), w=bs.localView(); const auto& E=p.d.elements[e]; auto g=E.geometry(); using T=typename std::decay_t<decltype(v.tree().finiteElement().localBasis())>::Traits;
    // the functions on the reference element
    vg::identity=true; v.bind(E); const auto& fe0=v.tree().finiteElement(); std::vector<typename T::RangeType> r0,r1,pd; fe0.localBasis().evaluateFunction(x,r0);
    std::vector<double> c0,c1; auto hat=[&](const FieldVector<double,dim>& y) { vg::identity=false; auto q=pull<dim,cov>(g,Field<dim>{}(y)); vg::identity=true; return q; }; fe0.localInterpolation().interpolate(hat,c0);
    vg::identity=false; w.bind(E); const auto& fe=w.tree().finiteElement(); u64 n=fe.size(); fe.localBasis().evaluateFunction(x,r1); vp_assert((r0.size()==n) & (r1.size()==n) & (fe.localBasis().size()==n),"one value per function");
    for (u64 i=0;i<n;++i) { auto q=push<dim,cov>(g,vec<dim>(r0[i])); for (int j=0;j<dim;++j) vp_assert_eq(r1[i][j],q[j],"values are the transformed values of the functions on the reference element"); }
    std::vector<typename T::JacobianType> jac; fe.localBasis().evaluateJacobian(x,jac); vp_assert(jac.size()==n,"one Jacobian per function");
    for (u64 i=0;i<n;++i) for (int j=0;j<dim;++j) for (int k=0;k<dim;++k) vp_assert_eq(jac[i][j][k],vp_diff(r1[i][j],x[k]),"Jacobians are the derivatives of the values");
    if constexpr (dim==2) { fe.localBasis().partial({0,0},x,pd); for (u64 i=0;i<n;++i) for (int j=0;j<dim;++j) vp_assert_eq(pd[i][j],r1[i][j],"partial derivatives of order zero are the values");
      for (int k=0;k<dim;++k) { std::array<unsigned,2> o{}; o[k]=1; fe.localBasis().partial(o,x,pd); for (u64 i=0;i<n;++i) for (int j=0;j<dim;++j) vp_assert_eq(pd[i][j],jac[i][j][k],"first partial derivatives are the entries of the Jacobian"); } }
    fe.localInterpolation().interpolate(Field<dim>{},c1); vp_assert((c0.size()==n) & (c1.size()==n),"one coefficient per function");
    for (u64 i=0;i<n;++i) vp_assert_eq(c1[i],c0[i],"interpolation evaluates the functionals of the reference element for the field transformed back");
  }
}
// lowest order: flux of the functions through the facets
template<int dim, class F> void fluxes(const F& factory, GeometryType a, GeometryType b, int s0, int s1) {
  Pair<dim> p(a,b,s0,s1); auto bs=makeBasis(p.gv,factory); for (const auto& e : p.d.elements) e.geometry().det(); double shared[2]={0,0};
  for (u64 e=0;e<2;++e) { auto v=bs.localView(); const auto& E=p.d.elements[e]; v.bind(E); const auto& fe=v.tree().finiteElement(); auto g=E.geometry(); auto re=Dune::referenceElement<double,dim>(E.gt);
    std::vector<typename std::decay_t<decltype(fe.localBasis())>::Traits::RangeType> r;
    for (int f=0;f<re.size(1);++f) {
      // an arbitrary inner point of the facet
      auto fg=re.template geometry<1>(f); FieldVector<double,dim-1> y; { double rest=1; for (int i=0;i<dim-1;++i) { y[i]=vp_real("y"); vp_assume((y[i]>0) & (y[i]<(re.type(f,1).isSimplex() ? rest : 1.))); rest-=y[i]; } } fe.localBasis().evaluateFunction(fg.global(y),r);
      FieldVector<double,dim> N; auto n=re.integrationOuterNormal(f), x=FieldVector<double,dim>(0.); auto K=g.jacobianInverse(x); double w=g.integrationElement(x); for (int i=0;i<dim;++i) { N[i]=0; for (int j=0;j<dim;++j) N[i]+=w*K[j][i]*n[j]; }
      for (u64 i=0;i<fe.size();++i) { auto k=fe.localCoefficients().localKey(i); if (k.codim()!=1) continue; double q=0; for (int j=0;j<dim;++j) q+=r[i][j]*N[j]; q*=Dune::referenceElement<double,dim-1>(re.type(f,1)).volume();
        if ((int)k.subEntity()!=f) vp_assert_eq(q,0.,"functions have no flux through the other facets");
        else if (f==(e==0 ? s0 : s1)) shared[e]=q; } }
  }
  vp_assert_eq(shared[0]+shared[1],0.,"the fluxes of a function through the facet shared by two elements agree");
  vp_assert_eq(shared[0]*shared[0],1.,"the function of a facet has a flux of size one through it");
}
// lowest order: circulation of the functions along the edges, from the vertex with the smaller index to the one with the larger index
template<int dim, class F> void circulations(const F& factory, GeometryType a, GeometryType b, u64 numbering) {
  Pair<dim> p(a,b,0,0,numbering); auto bs=makeBasis(p.gv,factory); for (const auto& e : p.d.elements) e.geometry().det();
  for (u64 e=0;e<2;++e) { auto v=bs.localView(); const auto& E=p.d.elements[e]; v.bind(E); const auto& fe=v.tree().finiteElement(); auto g=E.geometry(); auto re=Dune::referenceElement<double,dim>(E.gt);
    std::vector<typename std::decay_t<decltype(fe.localBasis())>::Traits::RangeType> r; vp_assert((int)fe.size()==re.size(dim-1),"one function per edge");
    for (int f=0;f<re.size(dim-1);++f) { int A=re.subEntity(f,dim-1,0,dim), B=re.subEntity(f,dim-1,1,dim); const auto& ix=p.gv.indexSet(); if (ix.subIndex(E,A,dim)>ix.subIndex(E,B,dim)) std::swap(A,B);
      double s=vp_real("s"); auto pa=re.position(A,dim), pb=re.position(B,dim); FieldVector<double,dim> y; for (int i=0;i<dim;++i) y[i]=pa[i]+s*(pb[i]-pa[i]); fe.localBasis().evaluateFunction(y,r); auto t=g.global(pb)-g.global(pa);
      for (u64 i=0;i<fe.size();++i) { auto k=fe.localCoefficients().localKey(i); double q=0; for (int j=0;j<dim;++j) q+=r[i][j]*t[j]; vp_assert_eq(q,(int)k.subEntity()==f ? 1. : 0.,"the circulation of a function is one along its own edge, towards the larger vertex index, and zero along the others"); } }
  }
}
