// Resolving multi-indices in nested containers.
#include "prelude.hh"
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/tuplevector.hh>
#include <dune/common/reservedvector.hh>
#include <dune/functions/common/indexaccess.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/common/densevectorview.hh>
#include <dune/functions/common/squeezetensor.hh>
#include <dune/functions/functionspacebases/flatvectorview.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
using namespace Dune::Functions;
using MI = Dune::ReservedVector<std::size_t,4>;
using FV2 = Dune::FieldVector<double,2>;
using FV3 = Dune::FieldVector<double,3>;
using namespace Dune::Indices;
static std::size_t pick(const char* n, std::size_t bound) { std::size_t x=vp_u64(n,0,1u<<20); vp_assume(x<bound); return vp_split(x); }

VP_HARNESS(resolve_vector_of_fv) {
  std::size_t n=vp_split(vp_u64("n",1,3));
  std::vector<FV3> c(n); for (auto& v : c) for (auto& x : v) x=vp_real("c");
  const auto& cc=c;
  MI mi; std::size_t i=pick("i",n), j=pick("j",3); mi.push_back(i); mi.push_back(j);
  vp_assert(&resolveDynamicMultiIndex(c,mi)==&c[i][j], "dynamic multi-index reaches the entry indexed digit by digit");
  vp_assert(&resolveDynamicMultiIndex(cc,mi)==&cc[i][j], "dynamic multi-index on a const container");
  auto b=istlVectorBackend(c); const auto& cb=b;
  vp_assert((&b[mi]==&c[i][j]) & (&cb[mi]==&c[i][j]), "vector backend reaches the entry");
  auto k=istlVectorBackend(cc); vp_assert(&k[mi]==&c[i][j], "const vector backend reaches the entry");
  vp_assert((&b.vector()==&c) & (&k.vector()==&c), "the backend refers to the wrapped vector");
  double& h=hybridMultiIndexAccess<double&>(c,mi); vp_assert(&h==&c[i][j], "hybrid multi-index access");
  const double& hc=hybridMultiIndexAccess<const double&>(cc,mi); vp_assert(&hc==&c[i][j], "hybrid multi-index access on a const container");
  StaticMultiIndex<std::size_t,2> si; si[0]=i; si[1]=j; vp_assert(&b[si]==&c[i][j], "vector backend with a static multi-index");
  // termination at a chosen level
  MI p; p.push_back(i);
  auto isFV = [](auto&& x) { return std::is_same<std::decay_t<decltype(x)>,FV3>{}; };
  vp_assert(&resolveDynamicMultiIndex(c,p,isFV)==&c[i], "resolution stops at final types");
  // padding by zeros
  vp_assert(&resolveDynamicMultiIndex(c,p)==&c[i][0], "exhausted indices are padded with zeros");
  vp_cover("vector of fv");
}
VP_HARNESS(resolve_multitype) {
  std::size_t n=vp_split(vp_u64("n",1,2));
  Dune::TupleVector<std::vector<FV2>,FV3,std::array<std::vector<double>,2>> c;
  c[_0].resize(n); c[_2][0].resize(n); c[_2][1].resize(n+1);
  const auto& cc=c;
  std::size_t which=vp_split(vp_u64("which",0,2)); MI mi; mi.push_back(which); double* e=nullptr;
  if (which==0) { auto i=pick("i",n), j=pick("j",2); mi.push_back(i); mi.push_back(j); e=&c[_0][i][j]; }
  if (which==1) { auto i=pick("i",3); mi.push_back(i); e=&c[_1][i]; }
  if (which==2) { auto i=pick("i",2), j=pick("j",c[_2][i].size()); mi.push_back(i); mi.push_back(j); e=&c[_2][i][j]; }
  vp_assert(&resolveDynamicMultiIndex(c,mi)==e, "dynamic multi-index in a multi-type container");
  vp_assert(&resolveDynamicMultiIndex(cc,mi)==e, "dynamic multi-index in a const multi-type container");
  auto b=istlVectorBackend(c); vp_assert(&b[mi]==e, "vector backend in a multi-type container");
  vp_cover("multitype");
}
VP_HARNESS(hybrid_index_access) {
  Dune::TupleVector<FV2,FV3,FV2> c; std::size_t i=vp_split(vp_u64("i",0,2)); std::size_t len=99; const void* at=nullptr;
  auto f=[&](auto& x) { len=x.size(); at=&x; };
  hybridIndexAccess(c,i,f);
  const void* w = i==0 ? (const void*)&c[_0] : i==1 ? (const void*)&c[_1] : (const void*)&c[_2];
  vp_assert((at==w) & (len==(i==1?3u:2u)), "static index access selects the i-th entry");
  std::vector<FV2> v(3); auto g=[&](auto& x)->FV2& { return x; };
  vp_assert(&hybridIndexAccess(v,i,g)==&v[i], "dynamic index access selects the i-th entry");
  vp_cover("index access");
}
VP_HARNESS(resolve_static) {
  Dune::TupleVector<std::array<FV2,3>,Dune::TupleVector<FV2,FV3>> c; const auto& cc=c;
  auto t=[](auto... i){ return Dune::TupleVector<decltype(i)...>(i...); };
  vp_assert(&resolveStaticMultiIndex(c,t(_0,_2,_1))==&c[_0][2][1], "static multi-index");
  vp_assert(&resolveStaticMultiIndex(c,t(_1,_1,_2))==&c[_1][_1][2], "static multi-index through nested tuples");
  vp_assert(&resolveStaticMultiIndex(c,t(_1,_0))==&c[_1][_0], "static multi-index to an inner container");
  vp_assert(&resolveStaticMultiIndex(cc,t(_0,_1))==&cc[_0][1], "static multi-index on a const container");
  vp_cover("static");
}
// ---- flat views
template<class V> std::size_t flatSize(V& v) { return std::size_t(flatVectorView(v).size()); }
VP_HARNESS(flat_view) {
  Dune::FieldMatrix<double,2,3> m; FV3 v; for (auto& x : v) x=vp_real("v");
  switch (vp_split(vp_u64("case",0,8))) {
  case 0: { double s=0; vp_assert((flatSize(s)==1), "flat size of a scalar"); { auto f=flatVectorView(s); vp_assert(&f[0]==&s, "flat view of a scalar"); } } break;
  case 1: { vp_assert(flatSize(v)==3, "flat size of a vector"); { auto f=flatVectorView(v); const auto& cf=f; auto i=pick("i",3); vp_assert((&f[i]==&v[i]) & (&cf[i]==&v[i]), "flat view of a vector"); } } break;
  case 2: { vp_assert(flatSize(m)==6, "flat size of a matrix"); { auto f=flatVectorView(m); auto i=pick("i",6); vp_assert(&f[i]==&m[i/3][i%3], "flat view of a matrix is row-major"); } } break;
  case 3: { std::array<FV2,3> a; vp_assert(flatSize(a)==6, "flat size of an array of vectors"); { auto f=flatVectorView(a); auto i=pick("i",6); vp_assert(&f[i]==&a[i/2][i%2], "flat view of an array of vectors"); } } break;
  case 4: { std::array<std::array<FV3,2>,2> aa; vp_assert(flatSize(aa)==12, "flat size of nested arrays"); { auto f=flatVectorView(aa); auto i=pick("i",12); vp_assert(&f[i]==&aa[i/6][(i/3)%2][i%3], "flat view of nested arrays"); } } break;
  case 5: { std::array<Dune::FieldMatrix<double,2,2>,2> am; vp_assert(flatSize(am)==8, "flat size of an array of matrices"); { auto f=flatVectorView(am); auto i=pick("i",8); vp_assert(&f[i]==&am[i/4][(i/2)%2][i%2], "flat view of an array of matrices"); } } break;
  case 6: { const auto& cm=m; { auto f=flatVectorView(cm); auto i=pick("i",6); vp_assert(&f[i]==&m[i/3][i%3], "flat view of a const matrix"); } } break;
  case 7: { { auto f=flatVectorView(FV3(v)); auto i=pick("i",3); vp_assert_eq(f[i],v[i],"flat view of a temporary holds its values"); vp_assert(std::size_t(f.size())==3,"flat size of a temporary"); } } break;
  case 8: { std::array<double,3> ad; { auto f=flatVectorView(ad); auto i=pick("i",3); vp_assert(&f[i]==&ad[i], "flat view of an array of scalars"); vp_assert(flatSize(ad)==3,"flat size of an array of scalars"); } } break;
  }
  vp_cover("flat");
}
VP_HARNESS(dense_view) {
  std::vector<double> d(3), e(3); double o[3]; for (int i=0;i<3;++i) { d[i]=o[i]=vp_real("d"); e[i]=vp_real("e"); }
  Dune::Functions::Impl::DenseVectorView<std::vector<double>> v(d), w(e); const auto& cv=v;
  vp_assert(v.size()==3, "size of a dense vector view");
  for (int i=0;i<3;++i) vp_assert((&v[i]==&d[i]) & (&cv[i]==&d[i]), "a dense vector view refers to the container");
  Dune::Functions::Impl::DenseVectorView<const std::vector<double>> u(e); for (int i=0;i<3;++i) vp_assert(&u[i]==&e[i], "a const dense vector view refers to the container");
  v += w; for (int i=0;i<3;++i) vp_assert_eq(d[i],o[i]+e[i],"adding views adds the containers");
  v = w; for (int i=0;i<3;++i) { vp_assert_eq(d[i],e[i],"assigning a view copies the entries"); vp_assert(&v[i]==&d[i],"a view stays attached after assignment"); }
  auto x=std::move(v); for (int i=0;i<3;++i) vp_assert(&x[i]==&d[i],"a moved view refers to the same container");
  vp_cover("dense");
}
VP_HARNESS(squeeze) {
  FV3 v; FV2 w; Dune::FieldVector<double,1> s; Dune::FieldMatrix<double,1,3> r; Dune::FieldMatrix<double,2,3> m; std::array<Dune::FieldMatrix<double,2,2>,1> h; std::array<Dune::FieldMatrix<double,2,2>,2> hh; double d;
  const auto& cs=s; const auto& cr=r; const auto& ch=h; const auto& cm=m;
  using Dune::Functions::Impl::squeezeTensor;
  vp_assert((&squeezeTensor(v)==&v) & (&squeezeTensor(m)==&m) & (&squeezeTensor(cm)==&m) & (&squeezeTensor(hh)==&hh) & (&squeezeTensor(d)==&d), "tensors without empty axis are unchanged");
  vp_assert((&squeezeTensor(s)==&s[0]) & (&squeezeTensor(cs)==&s[0]), "a one-component vector becomes its entry");
  vp_assert((&squeezeTensor(r)==&r[0]) & (&squeezeTensor(cr)==&r[0]), "a one-row matrix becomes its row");
  vp_assert((&squeezeTensor(h)==&h[0]) & (&squeezeTensor(ch)==&h[0]), "a one-matrix tensor becomes the matrix");
  (void)w; vp_cover("squeeze");
}
// ---- resize through the vector backend
struct Sizes { // index tree of depth two with arbitrary sizes, sub(i)==0: leaf
  using SizePrefix = MI; std::size_t n0; std::array<std::size_t,4> n1;
  std::size_t size(const MI& p) const { if (p.size()==0) return n0; vp_assert(p[0]<n0,"only valid prefixes are queried"); if (p.size()==1) return n1[p[0]]; vp_assert((p.size()==2) & (p[1]<n1[p[0]]),"only valid prefixes are queried"); return 0; }
};
static Sizes anySizes(std::size_t m, std::size_t lo, std::size_t hi) { Sizes s; s.n0=vp_split(vp_u64("n0",1,m)); for (std::size_t i=0;i<4;++i) s.n1[i]= i<s.n0 ? vp_split(vp_u64("n1",lo,hi)) : 0; return s; }
template<class C> bool throwsOnResize(C& c, const Sizes& s) { try { istlVectorBackend(c).resize(s); return false; } catch (Dune::RangeError&) { return true; } }
VP_HARNESS(resize_nested_vector) {
  Sizes s=anySizes(3,0,2); std::vector<std::vector<double>> c(vp_split(vp_u64("old",0,2)));
  bool leaf=false; for (std::size_t i=0;i<s.n0;++i) leaf |= s.n1[i]==0;
  bool t=throwsOnResize(c,s);
  if (!leaf) { vp_assert(!t,"a resizable container accepts every matching tree"); vp_assert(c.size()==s.n0,"outer size after resize"); for (std::size_t i=0;i<s.n0;++i) vp_assert(c[i].size()==s.n1[i],"inner sizes after resize");
    auto b=istlVectorBackend(c); MI mi; auto i=pick("i",s.n0), j=pick("j",s.n1[i]); mi.push_back(i); mi.push_back(j); vp_assert(&b[mi]==&c[i][j],"every leaf index is accessible after resize"); vp_cover("resized"); }
  else { vp_assert(t,"a tree leaf without scalar entry is rejected"); vp_cover("rejected"); }
}
VP_HARNESS(resize_field_vector) {
  Sizes s=anySizes(3,0,3); std::vector<FV2> c(vp_split(vp_u64("old",0,3)));
  bool ok=true; for (std::size_t i=0;i<s.n0;++i) ok = ok && (s.n1[i]==0 || s.n1[i]==2);
  bool t=throwsOnResize(c,s);
  vp_assert(t==!ok,"a shape mismatch of statically sized blocks is rejected, a match accepted");
  if (!t) { vp_assert(c.size()==s.n0,"outer size after resize"); vp_cover("accepted"); } else vp_cover("rejected");
}
VP_HARNESS(resize_flat) {
  Sizes s=anySizes(3,0,1); std::vector<double> c(vp_split(vp_u64("old",0,3)));
  bool ok=true; for (std::size_t i=0;i<s.n0;++i) ok = ok && s.n1[i]==0;
  bool t=throwsOnResize(c,s);
  vp_assert(t==!ok,"scalar entries are accepted exactly for leaves"); if (!t) { vp_assert(c.size()==s.n0,"size after resize"); vp_cover("accepted"); } else vp_cover("rejected");
}
VP_HARNESS(resize_multitype) {
  Sizes s=anySizes(3,0,2); Dune::TupleVector<std::vector<double>,FV2> c;
  bool ok = s.n0==2 && s.n1[0]>0 && (s.n1[1]==2 || s.n1[1]==0);
  bool t=throwsOnResize(c,s);
  vp_assert(t==!ok,"a multi-type container accepts exactly the matching tree"); if (!t) { vp_assert(c[_0].size()==s.n1[0],"inner size after resize"); vp_cover("accepted"); } else vp_cover("rejected");
}
VP_HARNESS(backend_assign) {
  std::vector<std::vector<double>> c(2,std::vector<double>(2)); double x=vp_real("x");
  auto b=istlVectorBackend(c); b=x;
  for (auto& r : c) for (auto& e : r) vp_assert_eq(e,x,"assigning a scalar sets every entry");
  std::vector<std::vector<double>> d(1,std::vector<double>(2)); d[0][0]=vp_real("d0"); d[0][1]=vp_real("d1");
  b=d; vp_assert((c.size()==1) && (c[0].size()==2),"assigning a vector copies its shape"); vp_assert_eq(c[0][0],d[0][0],"assigning a vector copies its entries"); vp_assert_eq(c[0][1],d[0][1],"assigning a vector copies its entries");
  Dune::TupleVector<std::vector<double>,FV2> m; m[_0].resize(2); auto bm=istlVectorBackend(m); bm=x; vp_assert_eq(m[_0][0],x,"scalar assignment (multi-type)"); vp_assert_eq(m[_0][1],x,"scalar assignment (multi-type)"); vp_assert_eq(m[_1][0],x,"scalar assignment (multi-type)"); vp_assert_eq(m[_1][1],x,"scalar assignment (multi-type)");
  const auto& cd=d; auto bc=istlVectorBackend(cd); c.clear(); b=bc; vp_assert((c.size()==1) && (c[0].size()==2),"assigning another backend copies the vector"); vp_assert_eq(c[0][1],d[0][1],"assigning another backend copies the entries");
  vp_assert(hasUniqueFieldType<std::vector<FV2>&>() & hasUniqueFieldType<const Dune::TupleVector<std::vector<double>,FV2>&>() & !hasUniqueFieldType<Dune::TupleVector<std::vector<float>,FV2>&>(),"unique field types are recognised");
  vp_cover("assign");
}
