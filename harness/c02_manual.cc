// containers made from descriptors that do not come from a basis
#include "c02_common.hh"
using namespace Dune::Indices;
template<class C, class D> void mirrors(const C& c, const D& d, double init) {
  if constexpr (std::is_same_v<D,CD::Value>) { static_assert(std::is_same_v<C,double>); vp_assert_eq(c,init,"new entries are initialised"); vp_cover("scalar"); }
  else { std::size_t s=Dune::Hybrid::size(d); vp_assert(Dune::Hybrid::size(c)==s,"containers have the size of their descriptor on every level");
    if constexpr (IsTuple<C>::value) { static_assert(C::size()==D::size()); Dune::Hybrid::forEach(std::make_index_sequence<D::size()>{},[&](auto k){ mirrors(c[k],d[k],init); }); }
    else for (std::size_t i=0;i<s;++i) mirrors(c[i],d[i],init); } }
static std::size_t n(std::size_t lo=1) { return vp_split(vp_u64("n",lo,3)); }
template<class D> void both(const D& d) { double v=vp_real("init"); mirrors(makeContainer<double>(d),d,0.); mirrors(makeContainer<double>(d,v),d,v); mirrors(makeISTLVector<double>(d),d,0.); }
VP_HARNESS(m_value) { both(CD::Value{}); }
VP_HARNESS(m_flat) { both(CD::FlatArray<3>{}); both(CD::FlatVector{n(0)}); both(CD::FlatArray<1>{}); }
VP_HARNESS(m_uniform) { both(CD::UniformVector<CD::FlatArray<2>>{n(0)}); both(CD::UniformVector<CD::FlatVector>{n(),CD::FlatVector{n(0)}}); both(CD::UniformArray<CD::FlatVector,3>{CD::FlatVector{n(0)}}); }
VP_HARNESS(m_nested) { both(CD::Array<CD::FlatVector,2>{CD::FlatVector{n(0)},CD::FlatVector{n(0)}}); CD::Vector<CD::FlatVector> v; for (std::size_t i=n(0);i>0;--i) v.push_back(CD::FlatVector{n(0)}); both(v); CD::Vector<CD::FlatArray<2>> w(n(0)); both(w); }
VP_HARNESS(m_values) { both(CD::Array<CD::Value,3>{}); CD::Vector<CD::Value> v(n(0)); both(v); both(CD::Tuple<CD::Value,CD::FlatVector>{CD::Value{},CD::FlatVector{n(0)}}); }
VP_HARNESS(m_tuple) { both(CD::makeDescriptor(CD::makeUniformDescriptor(n(),CD::FlatArray<2>{}),CD::FlatVector{n(0)})); both(CD::makeDescriptor(CD::FlatVector{n(0)},CD::FlatVector{n(0)})); both(CD::makeDescriptor(CD::FlatArray<2>{},CD::FlatVector{n(0)},CD::makeUniformDescriptor(std::integral_constant<std::size_t,2>{},CD::FlatVector{n(0)}))); }
