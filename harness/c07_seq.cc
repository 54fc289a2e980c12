// Sequence containers used as multi-indices, against an abstract sequence.
#include "prelude.hh"
#include <dune/functions/common/reserveddeque.hh>
#include <dune/functions/common/overflowarray.hh>
#include <dune/functions/common/multiindex.hh>
#include <memory>
using namespace Dune::Functions;
using T = std::size_t;
constexpr T big = ~T(0);

// ghost sequence: contents are symbolic, length concrete on each path
template<std::size_t cap> struct Seq {
  std::size_t n=0; T v[cap+2];
  void push_back(T t) { v[n++]=t; }
  void push_front(T t) { for (std::size_t i=n; i>0; --i) v[i]=v[i-1]; v[0]=t; ++n; }
  void pop_back() { --n; }
  void pop_front() { for (std::size_t i=1; i<n; ++i) v[i-1]=v[i]; --n; }
};

template<class D, class S> void same(D& d, const S& s) {
  const D& c = d;
  vp_assert(c.size()==s.n, "size of the sequence");
  vp_assert(c.empty()==(s.n==0), "empty exactly for length zero");
  for (std::size_t i=0;i<s.n;++i) {
    vp_assert(c[i]==s.v[i], "entry i of the sequence (const access)");
    vp_assert(d[i]==s.v[i], "entry i of the sequence (mutable access)");
  }
  if (s.n>0) {
    vp_assert((c.front()==s.v[0]) & (d.front()==s.v[0]), "front is the first entry");
    vp_assert((c.back()==s.v[s.n-1]) & (d.back()==s.v[s.n-1]), "back is the last entry");
    vp_assert((&d.front()==&d[0]) & (&d.back()==&d[s.n-1]) & (&c.front()==&c[0]) & (&c.back()==&c[s.n-1]), "front and back refer to the stored entries");
  }
  std::size_t k=0;
  for (const auto& x : c) { vp_assert((k<s.n) && (x==s.v[k]), "iteration visits the entries in order"); ++k; }
  vp_assert(k==s.n, "iteration visits all entries");
  k=0;
  for (auto& x : d) { vp_assert((k<s.n) && (&x==&d[k]), "mutable iteration refers to the entries"); ++k; }
  vp_assert(k==s.n, "mutable iteration visits all entries");
}

// Every representation state (position of the first entry, length, contents) is
// reached by rotating an empty queue; one arbitrary operation from there is
// the induction step over all histories.
template<int cap> void deque() {
  ReservedDeque<T,cap> d; Seq<cap> s;
  vp_assert((d.capacity()==cap) & (d.max_size()==cap), "capacity");
  std::size_t rot = vp_split(vp_u64("rotation",0,cap)), len = vp_split(vp_u64("length",0,cap));
  for (std::size_t i=0;i<rot;++i) { d.push_back(vp_u64("old",0,big)); d.pop_front(); }
  bool front = vp_bool("buildFront");
  for (std::size_t i=0;i<len;++i) { T x=vp_u64("x",0,big); if (front) { d.push_front(x); s.push_front(x); } else { d.push_back(x); s.push_back(x); } }
  same(d,s);
  for (int step=0; step<2; ++step) {
    T y = vp_u64("y",0,big);
    switch (vp_split(vp_u64("op",0,7))) {
      case 0: if (s.n<cap) { d.push_back(y); s.push_back(y); } break;
      case 1: if (s.n<cap) { d.push_front(y); s.push_front(y); } break;
      case 2: d.pop_back(); if (s.n) s.pop_back(); break;
      case 3: d.pop_front(); if (s.n) s.pop_front(); break;
      case 4: d.clear(); s.n=0; break;
      case 5: { std::size_t m=vp_split(vp_u64("m",0,s.n)); d.resize(m); s.n=m; break; }
      case 6: { ReservedDeque<T,cap> c(d); if (s.n) { T old=d[0]; d[0]=y; vp_assert(c[0]==old, "copies are independent"); d[0]=old; } d.clear(); d=c; break; }
      case 7: if (s.n) { std::size_t i=vp_split(vp_u64("i",0,s.n-1)); d[i]=y; s.v[i]=y; } break;
    }
    same(d,s);
  }
  vp_cover("deque");
}
VP_HARNESS(deque1) { deque<1>(); }
VP_HARNESS(deque2) { deque<2>(); }
VP_HARNESS(deque3) { deque<3>(); }
#if VP_THOROUGH
VP_HARNESS(deque4) { deque<4>(); }
VP_HARNESS(deque5) { deque<5>(); }
#endif
VP_HARNESS(deque_list) {
  T a=vp_u64("a",0,big), b=vp_u64("b",0,big), c=vp_u64("c",0,big);
  // also on storage with arbitrary previous contents
  alignas(ReservedDeque<T,3>) unsigned char mem[sizeof(ReservedDeque<T,3>)];
  for (std::size_t i=0;i<sizeof(mem)/8;++i) reinterpret_cast<T*>(mem)[i]=vp_u64("mem",0,big);
  auto* d = new(mem) ReservedDeque<T,3>{a,b};
  Seq<3> s; s.push_back(a); s.push_back(b); same(*d,s);
  d->push_back(c); s.push_back(c); same(*d,s);
  ReservedDeque<T,3> e{c}; Seq<3> t; t.push_back(c); same(e,t); e.push_front(a); t.push_front(a); same(e,t);
  vp_cover("deque list");
}

template<std::size_t base, std::size_t cap> void overflow() {
  using A = OverflowArray<StaticMultiIndex<T,base>,cap>;
  A d; Seq<cap> s;
  vp_assert((d.capacity()==cap) & (d.max_size()==cap) & (d.size()==0), "capacity and initial size");
  std::size_t len = vp_split(vp_u64("length",0,cap));
  for (std::size_t i=0;i<len;++i) { T x=vp_u64("x",0,big); d.push_back(x); s.push_back(x); }
  same(d,s);
  for (int step=0; step<2; ++step) {
    T y = vp_u64("y",0,big);
    switch (vp_split(vp_u64("op",0,6))) {
      case 0: if (s.n<cap) { d.push_back(y); s.push_back(y); } break;
      case 1: if (s.n<cap) { d.push_front(y); s.push_front(y); } break;
      case 2: if (s.n) { d.pop_back(); s.pop_back(); } break;
      case 3: d.clear(); s.n=0; break;
      case 4: { std::size_t m=vp_split(vp_u64("m",0,cap)); std::size_t k=s.n; d.resize(m); s.n=m; for (std::size_t i=k;i<m;++i) { T z=vp_u64("z",0,big); d[i]=z; s.v[i]=z; } break; }
      case 5: { A c(d); vp_assert(c==d, "a copy compares equal"); if (s.n) { T old=d[0]; d[0]=y; vp_assert(c[0]==old, "copies are independent"); vp_assert((c==d)==(y==old), "comparison sees a changed entry"); d[0]=old; } d.clear(); d=c; break; }
      case 6: if (s.n) { std::size_t i=vp_split(vp_u64("i",0,s.n-1)); d[i]=y; s.v[i]=y; } break;
    }
    same(d,s);
  }
  // conversion to the statically sized multi-index
  if (s.n==base) { const StaticMultiIndex<T,base>& b=d; for (std::size_t i=0;i<base;++i) vp_assert(b[i]==s.v[i], "the base array holds the first entries"); }
  vp_cover("overflow array");
}
VP_HARNESS(overflow_2_4) { overflow<2,4>(); }
VP_HARNESS(overflow_1_2) { overflow<1,2>(); }
VP_HARNESS(overflow_3_3) { overflow<3,3>(); }
#if VP_THOROUGH
VP_HARNESS(overflow_2_6) { overflow<2,6>(); }
VP_HARNESS(overflow_3_5) { overflow<3,5>(); }
#endif
VP_HARNESS(overflow_compare) {
  using A = OverflowArray<StaticMultiIndex<T,2>,4>;
  std::size_t n=vp_split(vp_u64("n",0,4)), m=vp_split(vp_u64("m",0,4));
  A a,b; bool eq = n==m;
  for (std::size_t i=0;i<n;++i) a.push_back(vp_u64("a",0,big));
  for (std::size_t i=0;i<m;++i) b.push_back(vp_u64("b",0,big));
  if (n==m) for (std::size_t i=0;i<n;++i) eq = eq & (a[i]==b[i]);
  vp_assert((a==b)==eq, "two index buffers are equal exactly if they have the same length and digits");
  vp_assert((b==a)==eq, "comparison is symmetric");
  if (eq) vp_cover("equal"); else vp_cover("different");
}
VP_HARNESS(overflow_list) {
  using A = OverflowArray<StaticMultiIndex<T,2>,4>;
  T a=vp_u64("a",0,big), b=vp_u64("b",0,big), c=vp_u64("c",0,big);
  A d{a,b,c}; Seq<4> s; s.push_back(a); s.push_back(b); s.push_back(c); same(d,s);
  A e{b}; Seq<4> t; t.push_back(b); same(e,t); e.push_front(e[0]); t.push_front(b); same(e,t);
  vp_cover("overflow list");
}
VP_HARNESS(static_multi_index) {
  T a=vp_u64("a",0,big), b=vp_u64("b",0,big);
  StaticMultiIndex<T,1> x; x[0]=a;
  const auto& cx=x;
  vp_assert((x.size()==1) & (x.max_size()==1), "size of a one-digit index");
  vp_assert(static_cast<const T&>(cx)==a, "a one-digit index converts to its digit");
  T& r = x; r = b; vp_assert(x[0]==b, "the conversion refers to the digit");
  StaticMultiIndex<T,2> y; y[0]=a; y[1]=b;
  vp_assert((y.size()==2) & (y.max_size()==2), "size of a two-digit index");
  StaticMultiIndex<T,2> z; z[0]=vp_u64("c",0,big); z[1]=vp_u64("d",0,big);
  vp_assert((y==z) == ((z[0]==a)&(z[1]==b)), "static indices compare digit by digit");
  vp_cover("static index");
}
// hash(equal) is equal: digits drawn from a few values so hashing is computed
VP_HARNESS(hash) {
  using A = OverflowArray<StaticMultiIndex<T,2>,4>;
  std::size_t n=vp_split(vp_u64("n",0,3));
  A a,b; for (std::size_t i=0;i<3;++i) b.push_back(7);
  b.clear();
  for (std::size_t i=0;i<n;++i) { T x=vp_split(vp_u64("x",0,2)); a.push_back(x); b.push_back(x); }
  vp_assert(hash_value(a)==hash_value(b), "equal index buffers have equal hashes");
  if (n==2) { StaticMultiIndex<T,2> s,t; s[0]=t[0]=a[0]; s[1]=t[1]=a[1]; vp_assert(hash_value(s)==hash_value(t), "equal static indices have equal hashes"); vp_assert(hash_value(s)==hash_value(a), "static and buffered index with the same digits hash alike"); }
  vp_cover("hash");
}
