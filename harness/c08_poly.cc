#include "prelude.hh"
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
using namespace Dune::Functions;
static double power(double x, std::size_t n) { double r=1; for (std::size_t i=0;i<n;++i) r*=x; return r; }
constexpr std::size_t maxN = VP_THOROUGH ? 13 : 10;

VP_HARNESS(poly_vector) {
  std::size_t n=vp_split(vp_u64("n",0,maxN)); std::vector<double> c(n); for (auto& x : c) x=vp_real("c");
  double x=vp_real("x");
  Polynomial p(c); vp_assert(p.coefficients()==c,"coefficients are kept");
  double v=p(x), s=0, s1=0, s2=0;
  for (std::size_t i=0;i<n;++i) { s+=c[i]*power(x,i); if (i>0) s1+=double(i)*c[i]*power(x,i-1); if (i>1) s2+=double(i)*double(i-1)*c[i]*power(x,i-2); }
  vp_assert_eq(v,s,"polynomial value is the sum of coefficient times power");
  auto d=derivative(p); vp_assert_eq(d(x),s1,"first derivative (definition)"); vp_assert_eq(d(x),vp_diff(v,x),"first derivative is the exact derivative of the value");
  auto dd=derivative(d); vp_assert_eq(dd(x),s2,"second derivative (definition)"); vp_assert_eq(dd(x),vp_diff(vp_diff(v,x),x),"second derivative is the exact derivative");
  vp_cover("poly vector");
}
template<std::size_t n> void polyArray() {
  std::array<double,n> c; for (auto& x : c) x=vp_real("c"); double x=vp_real("x");
  Polynomial p(c); double v=p(x), s=0, s1=0; for (std::size_t i=0;i<n;++i) { s+=c[i]*power(x,i); if (i>0) s1+=double(i)*c[i]*power(x,i-1); }
  vp_assert_eq(v,s,"polynomial value (array coefficients)");
  auto d=derivative(p); vp_assert_eq(d(x),s1,"first derivative (array coefficients)");
  if constexpr (n>0) { auto dd=derivative(d); vp_assert_eq(dd(x),vp_diff(vp_diff(v,x),x),"second derivative (array coefficients)"); }
  vp_assert(p==Polynomial(c),"polynomials with equal coefficients are equal");
  vp_cover("poly array");
}
VP_HARNESS(poly_array) {
  std::size_t n=vp_split(vp_u64("n",1,maxN));
  Dune::Hybrid::forEach(std::make_index_sequence<maxN>(), [&](auto i) { if (n==i+1) polyArray<decltype(i)::value+1>(); });
}
// long coefficient lists: no zero coefficient (zero ones are covered above), so the Horner scheme takes one path
VP_HARNESS(poly_long) {
  constexpr std::size_t n=32; std::array<double,n> c; for (auto& x : c) { x=vp_real("c"); vp_assume(x!=0); } double x=vp_real("x");
  double s1=0, s=0; for (std::size_t i=0;i<n;++i) { s+=c[i]*power(x,i); if (i>0) s1+=double(i)*c[i]*power(x,i-1); }
  Polynomial p(c); Polynomial q(std::vector<double>(c.begin(),c.end()));
  vp_assert_eq(p(x),s,"polynomial value (array coefficients)"); vp_assert_eq(q(x),s,"polynomial value is the sum of coefficient times power");
  vp_assert_eq(derivative(p)(x),s1,"first derivative (array coefficients)"); vp_assert_eq(derivative(q)(x),s1,"first derivative (definition)");
  vp_cover("long");
}
VP_HARNESS(poly_array0) { std::array<double,0> c; Polynomial<double,std::array<double,0>> p(c); double x=vp_real("x"); vp_assert_eq(p(x),0,"the empty polynomial is zero"); vp_assert_eq(derivative(p)(x),0,"derivative of the empty polynomial"); vp_cover("empty"); }
VP_HARNESS(poly_compare) {
  std::size_t n=vp_split(vp_u64("n",0,3)), m=vp_split(vp_u64("m",0,3)); std::vector<double> a(n), b(m); for (auto& x : a) x=vp_real("a"); for (auto& x : b) x=vp_real("b");
  bool eq=n==m; for (std::size_t i=0;i<n && i<m;++i) eq = eq & (a[i]==b[i]);
  vp_assert((Polynomial(a)==Polynomial(b))==eq,"polynomials compare by coefficients"); vp_cover("compare");
}
VP_HARNESS(poly_copy) {
  std::vector<double> c(3); for (auto& x : c) x=vp_real("c"); double x=vp_real("x");
  Polynomial p(c); auto d=derivative(p); auto q=p; p=Polynomial<double>(std::vector<double>{1.,2.,3.,4.});
  vp_assert_eq(q(x),c[0]+c[1]*x+c[2]*x*x,"copies are independent of the original"); vp_assert_eq(d(x),c[1]+2*c[2]*x,"a derivative is independent of later changes of the function");
  vp_assert_eq(p(x),1+2*x+3*x*x+4*x*x*x,"an assigned polynomial has the new value");
  auto il=Polynomial({1.,-2.,5.}); vp_assert_eq(il(x),1-2*x+5*x*x,"initializer list coefficients");
  Polynomial<double> e; vp_assert_eq(e(x),0,"a default constructed polynomial is zero");
  vp_cover("copy");
}
VP_HARNESS(poly_sequence) {
  double x=vp_real("x");
  auto p=makePolynomial<double>(std::integer_sequence<int,3,0,-4,5,0,7>()); double v=p(x);
  vp_assert_eq(v,3-4*power(x,2)+5*power(x,3)+7*power(x,5),"polynomial value (integer sequence)");
  auto d=derivative(p); vp_assert_eq(d(x),vp_diff(v,x),"first derivative (integer sequence)"); vp_assert_eq(d(x),-8*x+15*power(x,2)+35*power(x,4),"first derivative (integer sequence, definition)");
  auto dd=derivative(d); vp_assert_eq(dd(x),-8+30*x+140*power(x,3),"second derivative (integer sequence)");
  auto d3=derivative(dd); vp_assert_eq(d3(x),30+420*power(x,2),"third derivative (integer sequence)");
  auto q=makePolynomial<double>(std::integer_sequence<int,2>()); vp_assert_eq(q(x),2,"constant polynomial"); vp_assert_eq(derivative(q)(x),0,"derivative of a constant"); vp_assert_eq(derivative(derivative(q))(x),0,"second derivative of a constant");
  vp_assert(p==p,"integer sequence polynomials are equal to themselves");
  vp_cover("sequence");
}
VP_HARNESS(poly_tuple) {
  double x=vp_real("x"), a=vp_real("a"), b=vp_real("b"); using std::integral_constant;
  auto p=makePolynomial<double>(std::make_tuple(a,integral_constant<int,0>(),b,integral_constant<int,-3>(),2u,-5)); double v=p(x);
  vp_assert_eq(v,a+b*x*x-3*power(x,3)+2*power(x,4)-5*power(x,5),"polynomial value (tuple)");
  auto d=derivative(p); vp_assert_eq(d(x),2*b*x-9*x*x+8*power(x,3)-25*power(x,4),"first derivative (tuple)");
  auto dd=derivative(d); vp_assert_eq(dd(x),2*b-18*x+24*power(x,2)-100*power(x,3),"second derivative (tuple)");
  auto one=makePolynomial<double>(std::make_tuple(a)); vp_assert_eq(one(x),a,"constant polynomial (tuple)"); vp_assert_eq(derivative(one)(x),0,"derivative of a constant (tuple)");
  vp_cover("tuple");
}
VP_HARNESS(poly_int) {
  std::array<int,4> c{}; for (auto& x : c) x=(int)vp_i64("c",-1000,1000); double x=vp_real("x"); auto p=makePolynomial<double>(c);
  vp_assert_eq(p(x),c[0]+c[1]*x+c[2]*x*x+c[3]*x*x*x,"polynomial with integer coefficients and real argument"); vp_assert_eq(derivative(p)(x),c[1]+2*c[2]*x+3*c[3]*x*x,"derivative with integer coefficients");
  std::vector<int> w(3); for (auto& y : w) y=(int)vp_i64("w",-1000,1000); Polynomial q(w); int z=(int)vp_i64("z",-100,100);
  vp_assert(q(z)==w[0]+w[1]*z+w[2]*z*z,"integer polynomial"); vp_assert(derivative(q)(z)==w[1]+2*w[2]*z,"integer polynomial derivative");
  vp_cover("int");
}
template<int s, int c> void trig() {
  double x=vp_real("x"); TrigonometricFunction<double,s,c> f; double v=f(x);
  vp_assert_eq(v,s*std::sin(x)+c*std::cos(x),"trigonometric value"); auto d=derivative(f); vp_assert_eq(d(x),s*std::cos(x)-c*std::sin(x),"trigonometric derivative"); vp_assert_eq(d(x),vp_diff(v,x),"trigonometric derivative is exact");
  auto dd=derivative(d); vp_assert_eq(dd(x),-s*std::sin(x)-c*std::cos(x),"second trigonometric derivative"); auto d4=derivative(derivative(dd)); vp_assert_eq(d4(x),v,"fourth trigonometric derivative is the function");
}
VP_HARNESS(trig) { trig<1,0>(); trig<0,1>(); trig<2,3>(); trig<-4,5>(); trig<7,-2>(); trig<0,0>(); vp_cover("trig"); }
