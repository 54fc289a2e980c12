#include "prelude.hh"
#include <dune/functions/analyticfunctions/monomialset.hh>
using namespace Dune::Functions;
static double power(double x, std::size_t n) { double r=1; for (std::size_t i=0;i<n;++i) r*=x; return r; }
template<int dim, int deg> void mono() {
  using M=MonomialSet<double,dim,deg>; M m; Dune::FieldVector<double,dim> x; const char* nm[3]={"x0","x1","x2"}; for (int j=0;j<dim;++j) x[j]=vp_real(nm[j]);
  constexpr auto ex=M::exponents();
  std::size_t n=1; for (int j=1;j<=dim;++j) n=n*(deg+j)/j;
  vp_assert(M::size==(int)n && ex.size()==n,"number of monomials");
  auto v=m(x); auto J=derivative(m)(x); auto H=derivative(derivative(m))(x);
  vp_assert(v.size()==n && J.N()==n && J.M()==dim && H.size()==n,"one value, gradient and Hessian per monomial");
  std::size_t last=0;
  for (std::size_t k=0;k<n;++k) {
    std::size_t t=0; double p=1; for (int j=0;j<dim;++j) { t+=ex[k][j]; p*=power(x[j],ex[k][j]); }
    vp_assert(t<=deg && t>=last,"exponents are ordered by total degree"); last=t;
    for (std::size_t l=0;l<k;++l) { bool same=true; for (int j=0;j<dim;++j) same = same && ex[k][j]==ex[l][j]; vp_assert(!same,"every monomial occurs once"); }
    vp_assert_eq(v[k],p,"value k is the monomial with exponent k");
    for (int i=0;i<dim;++i) {
      vp_assert_eq(J[k][i],vp_diff(p,x[i]),"gradient of monomial k is exact");
      for (int j=0;j<dim;++j) vp_assert_eq(H[k][i][j],vp_diff(vp_diff(p,x[i]),x[j]),"Hessian of monomial k is exact");
    }
  }
  vp_cover("monomials");
}
VP_HARNESS(mono_1_0) { mono<1,0>(); }
VP_HARNESS(mono_1_1) { mono<1,1>(); }
VP_HARNESS(mono_1_2) { mono<1,2>(); }
VP_HARNESS(mono_1_5) { mono<1,5>(); }
VP_HARNESS(mono_2_0) { mono<2,0>(); }
VP_HARNESS(mono_2_1) { mono<2,1>(); }
VP_HARNESS(mono_2_2) { mono<2,2>(); }
VP_HARNESS(mono_2_3) { mono<2,3>(); }
VP_HARNESS(mono_2_5) { mono<2,5>(); }
VP_HARNESS(mono_3_0) { mono<3,0>(); }
VP_HARNESS(mono_3_1) { mono<3,1>(); }
VP_HARNESS(mono_3_2) { mono<3,2>(); }
VP_HARNESS(mono_3_3) { mono<3,3>(); }
VP_HARNESS(mono_3_4) { mono<3,4>(); }
VP_HARNESS(mono_1_9) { mono<1,9>(); }
VP_HARNESS(mono_2_7) { mono<2,7>(); }
VP_HARNESS(mono_3_6) { mono<3,6>(); }
#if VP_THOROUGH
VP_HARNESS(mono_1_20) { mono<1,20>(); }
VP_HARNESS(mono_2_12) { mono<2,12>(); }
VP_HARNESS(mono_3_9) { mono<3,9>(); }
#endif
