// Exact normaliser for real terms: multivariate rational functions over Q in
// "atoms" (variables, uninterpreted applications, roots, integer casts).
#pragma once
#include "expr.hh"

typedef std::vector<std::pair<int,int>> Mono; // (atom id, exponent), sorted
struct Poly {
  std::map<Mono,mpq_class> t;
  bool zero() const { return t.empty(); }
  static Poly c(const mpq_class& q){ Poly p; if(q!=0) p.t[Mono()]=q; return p; }
  static Poly atom(int id){ Poly p; p.t[Mono{{id,1}}]=1; return p; }
  bool isConst() const { return t.empty() || (t.size()==1 && t.begin()->first.empty()); }
  mpq_class constVal() const { return t.empty()? mpq_class(0) : t.begin()->second; }
};
struct PolyTooBig {};
inline Poly padd(const Poly& a, const Poly& b, const mpq_class& f=1){ Poly r=a; for(auto&p:b.t){ auto& x=r.t[p.first]; x+=f*p.second; if(x==0) r.t.erase(p.first);} return r; }
inline Mono mmul(const Mono&a,const Mono&b){ Mono r; size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j==b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i==a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first,a[i].second+b[j].second}); ++i;++j; } } return r; }
inline Poly pmul(const Poly&a,const Poly&b,size_t lim=400000){ Poly r; if(a.t.size()*b.t.size()>lim*8) throw PolyTooBig(); for(auto&p:a.t) for(auto&q:b.t){ Mono m=mmul(p.first,q.first); auto&x=r.t[m]; x+=p.second*q.second; if(x==0) r.t.erase(m);} if(r.t.size()>lim) throw PolyTooBig(); return r; }
inline bool operator<(const Poly&a,const Poly&b){ return a.t<b.t; }

struct Rat { Poly n; std::map<Poly,int> d; };

struct Normaliser {
  ExprPool& P;
  std::unordered_map<Ex,Rat> memo;
  std::unordered_map<int,Poly> squareOf; // atom id -> poly of atom^2 (sqrt)
  Normaliser(ExprPool& p):P(p){}
  Poly reduce(const Poly& p){ // replace sqrt(x)^2 by x
    if (squareOf.empty()) return p;
    Poly r; bool ch=false;
    for (auto& t: p.t) {
      Poly acc=Poly::c(t.second); Mono rest;
      for (auto& f: t.first) { auto it=squareOf.find(f.first); if (it!=squareOf.end() && f.second>=2) { ch=true; for(int i=0;i<f.second/2;++i) acc=pmul(acc,it->second); if (f.second%2) rest.push_back({f.first,1}); } else rest.push_back(f); }
      Poly m; m.t[rest]=1; r=padd(r,pmul(acc,m));
    }
    return ch? reduce(r) : r;
  }
  Poly denPoly(const std::map<Poly,int>& d){ Poly r=Poly::c(1); for(auto&p:d) for(int i=0;i<p.second;++i) r=pmul(r,p.first); return r; }
  Rat add(const Rat&x,const Rat&y,const mpq_class& f){
    if (y.n.zero()||f==0) return x;
    Rat r; r.d=x.d; for(auto&p:y.d){ auto&e=r.d[p.first]; e=std::max(e,p.second);} 
    auto mult=[&](const Rat&z){ Poly m=z.n; for(auto&p:r.d){ auto it=z.d.find(p.first); int have= it==z.d.end()?0:it->second; for(int i=have;i<p.second;++i) m=pmul(m,p.first);} return m; };
    r.n=reduce(padd(mult(x),mult(y),f)); if (r.n.zero()) r.d.clear(); return r; }
  Rat mul(const Rat&x,const Rat&y){ Rat r; r.n=reduce(pmul(x.n,y.n)); if(r.n.zero()) return r; r.d=x.d; for(auto&p:y.d) r.d[p.first]+=p.second; cancel(r); return r; }
  void cancel(Rat& r){ // numerator equal to a denominator factor (up to a constant)
    for (auto it=r.d.begin(); it!=r.d.end();) { mpq_class f; if (proportional(r.n,it->first,f)) { r.n=Poly::c(f); if(--it->second==0) it=r.d.erase(it); else ++it; return; } else ++it; } }
  static bool proportional(const Poly&a,const Poly&b,mpq_class&f){ if(a.t.size()!=b.t.size()||a.t.empty()) return false; auto i=a.t.begin(), j=b.t.begin(); f=i->second/j->second; for(;i!=a.t.end();++i,++j) if(i->first!=j->first||i->second!=f*j->second) return false; return true; }
  const Rat& norm(Ex e){
    auto it=memo.find(e); if(it!=memo.end()) return it->second;
    Rat r;
    switch(e->op){
      case Op::Const: r.n=Poly::c(e->k); break;
      case Op::Sum: { r.n=Poly::c(e->k); for(size_t i=0;i<e->a.size();++i){ Rat x=norm(e->a[i]); r=add(r,x,e->c[i]); } break; }
      case Op::Prod: { r=norm(e->a[0]); for(size_t i=1;i<e->a.size();++i){ Rat x=norm(e->a[i]); r=mul(r,x);} break; }
      case Op::RDiv: { Rat x=norm(e->a[0]); Rat y=norm(e->a[1]);
        if (y.n.zero()) { r.n=Poly::atom(e->id); break; }
        // x / (n/d) = x*d / n
        Rat inv; inv.n=denPoly(y.d);
        if (y.n.isConst()) { for(auto&t:inv.n.t) t.second/=y.n.constVal(); }
        else { mpq_class lead=y.n.t.begin()->second; Poly q=y.n; for(auto&t:q.t) t.second/=lead; for(auto&t:inv.n.t) t.second/=lead; inv.d[q]=1; }
        r=mul(x,inv); break; }
      case Op::ToReal: r.n=Poly::atom(e->id); break;
      case Op::UF: {
        if (e->name=="sqrt" && e->a.size()==1) { Rat x=norm(e->a[0]); if (x.d.empty()) { squareOf[e->id]=x.n; } }
        r.n=Poly::atom(e->id); break; }
      default: r.n=Poly::atom(e->id); break;
    }
    return memo[e]=r;
  }
  bool isZero(Ex e){ try { return norm(e).n.zero(); } catch(PolyTooBig&) { return false; } }
};
