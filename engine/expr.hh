// Hash-consed expression DAG with normal forms and interval analysis.
#pragma once
#include <gmpxx.h>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <iostream>
#include <memory>

enum class Op : uint8_t { Const, Var, Sum, Prod, IDiv, IMod, RDiv, Ite, Eq, Le, And, Or, Not, UF, ToReal, Floor, BAnd, BOr, BXor, True, False, Select, Forall };
enum class Sort : uint8_t { B, I, R };

struct E;
typedef const E* Ex;
struct E {
  Op op; Sort s; int id;
  std::vector<Ex> a;
  std::vector<mpq_class> c; // Sum coefficients
  mpq_class k;              // Const value / Sum constant / Var: unused
  std::string name;         // Var / UF name
  bool hl=false, hh=false; mpz_class lo, hi; // interval (Int sort only)
  std::vector<int> const* vars=nullptr; // lazily computed
};

struct ExprPool {
  std::vector<std::unique_ptr<E>> all;
  std::unordered_multimap<size_t, Ex> tab;
  Ex T, F;
  ExprPool() {
    E t; t.op=Op::True; t.s=Sort::B; T=intern(std::move(t));
    E f; f.op=Op::False; f.s=Sort::B; F=intern(std::move(f));
  }
  static size_t hq(const mpq_class& q) {
    size_t h = 1469598103u;
    auto mix=[&](const mpz_class& z){ h = h*1000003u ^ mpz_get_ui(z.get_mpz_t()); h = h*31 + (size_t)(mpz_sgn(z.get_mpz_t())+1); };
    mix(q.get_num()); mix(q.get_den()); return h;
  }
  static size_t hash(const E& e) {
    size_t h = (size_t)e.op*1315423911u ^ (size_t)e.s*2654435761u;
    for (auto x: e.a) h = h*1000003u ^ (size_t)x->id;
    for (auto& q: e.c) h = h*1000033u ^ hq(q);
    h = h*31 ^ hq(e.k);
    h ^= std::hash<std::string>()(e.name);
    return h;
  }
  static bool same(const E& x, const E& y) {
    return x.op==y.op && x.s==y.s && x.a==y.a && x.c==y.c && x.k==y.k && x.name==y.name;
  }
  Ex intern(E&& e) {
    size_t h = hash(e);
    auto r = tab.equal_range(h);
    for (auto it=r.first; it!=r.second; ++it) if (same(*it->second, e)) return it->second;
    e.id = all.size();
    interval(e);
    all.push_back(std::make_unique<E>(std::move(e)));
    Ex p = all.back().get();
    tab.emplace(h,p);
    return p;
  }
  void interval(E& e) {
    if (e.s!=Sort::I) return;
    auto setc=[&](const mpz_class&l,const mpz_class&h){ e.hl=e.hh=true; e.lo=l; e.hi=h; };
    switch(e.op) {
      case Op::Const: setc(e.k.get_num(), e.k.get_num()); break;
      case Op::Sum: {
        bool l=true,h=true; mpz_class L=e.k.get_num(), H=L;
        for (size_t i=0;i<e.a.size();++i) {
          mpz_class c=e.c[i].get_num(); Ex x=e.a[i];
          if (c>0) { if (x->hl) L+=c*x->lo; else l=false; if (x->hh) H+=c*x->hi; else h=false; }
          else { if (x->hh) L+=c*x->hi; else l=false; if (x->hl) H+=c*x->lo; else h=false; }
        }
        e.hl=l; e.hh=h; if(l) e.lo=L; if(h) e.hi=H; break; }
      case Op::Prod: {
        bool ok=true; mpz_class L=1,H=1;
        for (auto x: e.a) { if(!x->hl||!x->hh){ok=false;break;}
          mpz_class p[4]={L*x->lo,L*x->hi,H*x->lo,H*x->hi};
          L=*std::min_element(p,p+4); H=*std::max_element(p,p+4); }
        if (ok) setc(L,H);
        else { bool nn=true; for(auto x:e.a) if(!x->hl||x->lo<0) nn=false; if(nn){e.hl=true;e.lo=0;} }
        break; }
      case Op::IDiv: { Ex x=e.a[0], y=e.a[1];
        if (x->hl&&x->lo>=0&&y->hl&&y->lo>=1) { e.hl=true; e.lo= y->hh? mpz_class(x->lo / y->hi) : mpz_class(0); if(x->hh){e.hh=true;e.hi=x->hi / y->lo;} }
        break; }
      case Op::IMod: { Ex x=e.a[0]; Ex y=e.a[1]; e.hl=true;e.lo=0; if(y->hh){e.hh=true;e.hi=y->hi-1;}
        if (x->hl&&x->lo>=0&&x->hh&&(!e.hh||x->hi<e.hi)) {e.hh=true;e.hi=x->hi;} break; }
      case Op::Ite: { Ex x=e.a[1],y=e.a[2]; if(x->hl&&y->hl){e.hl=true;e.lo=std::min(x->lo,y->lo);} if(x->hh&&y->hh){e.hh=true;e.hi=std::max(x->hi,y->hi);} break; }
      case Op::BAnd: { Ex x=e.a[0],y=e.a[1]; e.hl=true;e.lo=0; if(x->hh&&y->hh){e.hh=true;e.hi=std::min(x->hi,y->hi);} break; }
      case Op::BOr: case Op::BXor: { Ex x=e.a[0],y=e.a[1]; e.hl=true;e.lo=0; if(x->hh&&y->hh){ mpz_class m=std::max(x->hi,y->hi); size_t b=mpz_sizeinbase(m.get_mpz_t(),2); e.hh=true; e.hi=(mpz_class(1)<<b)-1; } break; }
      default: break;
    }
  }
  Ex boolc(bool b){return b?T:F;}
  Ex konst(Sort s, const mpq_class& q){ E e; e.op=Op::Const; e.s=s; e.k=q; e.k.canonicalize(); return intern(std::move(e)); }
  Ex ic(const mpz_class& z){ return konst(Sort::I, mpq_class(z)); }
  Ex ic(long z){ return konst(Sort::I, mpq_class(z)); }
  Ex rc(const mpq_class& q){ return konst(Sort::R,q); }
  Ex var(Sort s, const std::string& n){ E e; e.op=Op::Var; e.s=s; e.name=n; return intern(std::move(e)); }
  Ex varRange(const std::string& n, const mpz_class& lo, const mpz_class& hi){
    // bounds are part of the name: on another path a variable of that name may have other bounds
    Ex v=var(Sort::I,n+"@"+lo.get_str()+":"+hi.get_str()); E* m=const_cast<E*>(v); m->hl=m->hh=true; m->lo=lo; m->hi=hi; return v; }
  Ex uf(Sort s, const std::string& n, std::vector<Ex> args){ E e; e.op=Op::UF; e.s=s; e.name=n; e.a=std::move(args); return intern(std::move(e)); }
  Ex ufRange(const std::string& n, std::vector<Ex> args, const mpz_class& lo, const mpz_class& hi){
    Ex v=uf(Sort::I,n+"@"+lo.get_str()+":"+hi.get_str(),std::move(args)); E* m=const_cast<E*>(v); if(!m->hl){m->hl=m->hh=true; m->lo=lo; m->hi=hi;} return v; }
  static bool isc(Ex e){return e->op==Op::Const;}
  // linear combination helper
  struct Lin { std::map<int,std::pair<Ex,mpq_class>> t; mpq_class k; };
  void addTo(Lin& l, Ex e, const mpq_class& f){
    if (f==0) return;
    if (e->op==Op::Const) { l.k+=f*e->k; return; }
    if (e->op==Op::Sum) { l.k+=f*e->k; for(size_t i=0;i<e->a.size();++i) addTo(l,e->a[i],f*e->c[i]); return; }
    auto it=l.t.find(e->id);
    if (it==l.t.end()) l.t.emplace(e->id,std::make_pair(e,f));
    else { it->second.second+=f; if(it->second.second==0) l.t.erase(it); }
  }
  Ex fromLin(Sort s, Lin& l){
    if (l.t.empty()) return konst(s,l.k);
    if (l.k==0 && l.t.size()==1 && l.t.begin()->second.second==1) return l.t.begin()->second.first;
    E e; e.op=Op::Sum; e.s=s; e.k=l.k;
    for (auto& p: l.t) { e.a.push_back(p.second.first); e.c.push_back(p.second.second); }
    return intern(std::move(e));
  }
  Ex add(Ex x, Ex y){ if(isc(x)&&x->k==0) return y; if(isc(y)&&y->k==0) return x; Lin l; addTo(l,x,1); addTo(l,y,1); return fromLin(x->s,l); }
  Ex sub(Ex x, Ex y){ if(isc(y)&&y->k==0) return x; Lin l; addTo(l,x,1); addTo(l,y,-1); return fromLin(x->s,l); }
  Ex scale(Ex x, const mpq_class& q){ Lin l; addTo(l,x,q); return fromLin(x->s,l); }
  Ex neg(Ex x){ return scale(x,-1); }
  Ex mul(Ex x, Ex y){
    if (isc(x)) return scale(y,x->k);
    if (isc(y)) return scale(x,y->k);
    // ite(c,const,const) * y  with a 0/1 flag
    mpq_class f=1; std::vector<Ex> fs;
    std::function<void(Ex)> push=[&](Ex e){
      if (e->op==Op::Prod) { for(auto z:e->a) fs.push_back(z); return; }
      if (e->op==Op::Sum && e->k==0 && e->a.size()==1) { f*=e->c[0]; push(e->a[0]); return; }
      fs.push_back(e); };
    push(x); push(y);
    // distribute small int sums so linear reasoning stays linear
    if (x->s==Sort::I) {
      for (size_t i=0;i<fs.size();++i) if (fs[i]->op==Op::Sum) {
        Ex sum=fs[i]; std::vector<Ex> rest; for(size_t j=0;j<fs.size();++j) if(j!=i) rest.push_back(fs[j]);
        Ex r=rest[0]; for(size_t j=1;j<rest.size();++j) r=mul(r,rest[j]);
        Lin l; addTo(l, r, f*sum->k);
        for (size_t j=0;j<sum->a.size();++j) addTo(l, mul(sum->a[j],r), f*sum->c[j]);
        return fromLin(x->s,l);
      }
    }
    std::sort(fs.begin(),fs.end(),[](Ex p,Ex q){return p->id<q->id;});
    E e; e.op=Op::Prod; e.s=x->s; e.a=fs; Ex p=intern(std::move(e));
    return f==1? p : scale(p,f);
  }
  Ex rdiv(Ex x, Ex y){
    if (isc(y)) { assert(y->k!=0); return scale(x, 1/y->k); }
    if (x==y) return rc(1);
    if (isc(x) && x->k==0) return x;
    // pull constant factors out
    if (x->op==Op::Sum && x->k==0 && x->a.size()==1) return scale(rdiv(x->a[0],y), x->c[0]);
    if (y->op==Op::Sum && y->k==0 && y->a.size()==1) return scale(rdiv(x,y->a[0]), 1/y->c[0]);
    E e; e.op=Op::RDiv; e.s=Sort::R; e.a={x,y}; return intern(std::move(e));
  }
  static mpz_class fdiv(const mpz_class&a,const mpz_class&b){ mpz_class q; mpz_fdiv_q(q.get_mpz_t(),a.get_mpz_t(),b.get_mpz_t()); return q; }
  // ---- words of boolean bits
  std::unordered_map<Ex,std::shared_ptr<std::vector<Ex>>> bitsMemo;
  // the bits of a non-negative integer term, if they are boolean combinations; null otherwise
  const std::vector<Ex>* bits(Ex e){
    if (e->s!=Sort::I) return nullptr;
    auto it=bitsMemo.find(e); if(it!=bitsMemo.end()) return it->second.get();
    auto r=std::make_shared<std::vector<Ex>>(); bool ok=bits_(e,*r); while(ok&&!r->empty()&&r->back()==F) r->pop_back();
    if(ok&&r->size()>64) ok=false; if(!ok) r=nullptr;
    bitsMemo[e]=r; return r.get(); }
  static bool pow2k(const mpz_class& d, size_t& k){ if(d<=0||mpz_popcount(d.get_mpz_t())!=1) return false; k=mpz_scan1(d.get_mpz_t(),0); return true; }
  bool bits_(Ex e, std::vector<Ex>& r){
    size_t k;
    switch(e->op){
      case Op::Const: { mpz_class v=e->k.get_num(); if(v<0) return false; for(size_t i=0;i<mpz_sizeinbase(v.get_mpz_t(),2);++i) r.push_back(boolc(mpz_tstbit(v.get_mpz_t(),i))); return true; }
      case Op::Ite: { auto x=bits(e->a[1]), y=bits(e->a[2]); if(!x||!y) return false; for(size_t i=0;i<std::max(x->size(),y->size());++i) r.push_back(ite(e->a[0], i<x->size()?(*x)[i]:F, i<y->size()?(*y)[i]:F)); return true; }
      case Op::IDiv: { if(!isc(e->a[1])||!pow2k(e->a[1]->k.get_num(),k)) return false; auto x=bits(e->a[0]); if(!x) return false; if(k<x->size()) r.assign(x->begin()+k,x->end()); return true; }
      case Op::IMod: { if(!isc(e->a[1])||!pow2k(e->a[1]->k.get_num(),k)) return false; auto x=bits(e->a[0]); if(!x) return false; r.assign(x->begin(),x->begin()+std::min(k,x->size())); return true; }
      case Op::BAnd: case Op::BOr: case Op::BXor: { auto x=bits(e->a[0]), y=bits(e->a[1]); if(!x||!y) return false; for(size_t i=0;i<std::max(x->size(),y->size());++i){ Ex p=i<x->size()?(*x)[i]:F, q=i<y->size()?(*y)[i]:F; r.push_back(e->op==Op::BAnd? and_({p,q}) : e->op==Op::BOr? or_({p,q}) : not_(eq(p,q))); } return true; }
      case Op::Sum: { mpz_class K=e->k.get_num(); if(K<0) return false; auto put=[&](size_t i, Ex b){ if(b==F) return true; if(r.size()<=i) r.resize(i+1,F); if(r[i]!=F) return false; r[i]=b; return true; };
        for(size_t i=0;i<mpz_sizeinbase(K.get_mpz_t(),2)&&K>0;++i) if(mpz_tstbit(K.get_mpz_t(),i)&&!put(i,T)) return false;
        for(size_t j=0;j<e->a.size();++j){ mpz_class c=e->c[j].get_num(); if(c<=0) return false; auto x=bits(e->a[j]); if(!x) return false;
          if(pow2k(c,k)){ for(size_t i=0;i<x->size();++i) if(!put(i+k,(*x)[i])) return false; }
          else if(x->size()<=1) { for(size_t i=0;i<mpz_sizeinbase(c.get_mpz_t(),2)&&!x->empty();++i) if(mpz_tstbit(c.get_mpz_t(),i)&&!put(i,(*x)[0])) return false; }
          else return false; }
        return true; }
      default: return false; } }
  Ex fromBits(const std::vector<Ex>& b){ Lin l; for(size_t i=0;i<b.size();++i) addTo(l,ite(b[i],ic(1),ic(0)),mpq_class(mpz_class(1)<<i)); return fromLin(Sort::I,l); }
  Ex wordOf(Ex e){ auto b=bits(e); return b? fromBits(*b) : e; }
  // all values of a term whose cases are visible (superset); false if there are more than max
  bool values(Ex e, std::set<mpz_class>& out, size_t max=64){
    if(isc(e)){ out.insert(e->k.get_num()); return true; }
    if(e->op==Op::Ite){ if(!values(e->a[1],out,max)||!values(e->a[2],out,max)) return false; return out.size()<=max; }
    if(e->op==Op::Sum){ std::set<mpz_class> s={e->k.get_num()}; for(size_t j=0;j<e->a.size();++j){ std::set<mpz_class> t,u; if(!values(e->a[j],t,max)) return false; for(auto&x:s) for(auto&y:t) u.insert(mpz_class(x+e->c[j].get_num()*y)); s.swap(u); if(s.size()>max) return false; } out.insert(s.begin(),s.end()); return out.size()<=max; }
    if(e->op==Op::IMod&&isc(e->a[1])){ std::set<mpz_class> t; if(values(e->a[0],t,max)){ for(auto&x:t) out.insert(mpz_class(x-fdiv(x,e->a[1]->k.get_num())*e->a[1]->k.get_num())); return out.size()<=max; } }
    if(e->op==Op::IDiv&&isc(e->a[1])){ std::set<mpz_class> t; if(values(e->a[0],t,max)){ for(auto&x:t) out.insert(fdiv(x,e->a[1]->k.get_num())); return out.size()<=max; } }
    return false; }
  // floor division; divisor positive
  Ex idiv(Ex x, Ex y){
    if (isc(y)&&y->k==1) return x;
    if (isc(x)&&isc(y)&&y->k>0) return ic(fdiv(x->k.get_num(),y->k.get_num()));
    if (x->hl&&x->lo>=0&&x->hh&&y->hl&&x->hi<y->lo) return ic(0);
    if (isc(y) && y->k>0) { // (c*q + r) / c
      mpz_class d=y->k.get_num(); Lin q,r; 
      if (x->op==Op::Sum) {
        for(size_t i=0;i<x->a.size();++i){ mpz_class ci=x->c[i].get_num(); if (ci%d==0) addTo(q,x->a[i],mpq_class(ci/d)); else addTo(r,x->a[i],x->c[i]); }
        mpz_class kq=fdiv(x->k.get_num(),d); 
        r.k = x->k - mpq_class(kq*d); q.k=kq;
        if (!q.t.empty() || (kq!=0)) { Ex rr=fromLin(Sort::I,r); Ex qq=fromLin(Sort::I,q); return add(qq, idiv(rr,y)); }
      }
      if (x->op==Op::IDiv && isc(x->a[1]) ) return idiv(x->a[0], ic(mpz_class(x->a[1]->k.get_num()*d)));
    }
    E e; e.op=Op::IDiv; e.s=Sort::I; e.a={x,y}; return wordOf(intern(std::move(e)));
  }
  Ex imod(Ex x, Ex y){
    if (isc(x)&&isc(y)&&y->k>0) { mpz_class r=x->k.get_num()-fdiv(x->k.get_num(),y->k.get_num())*y->k.get_num(); return ic(r); }
    if (isc(y)&&y->k==1) return ic(0);
    if (x->hl&&x->lo>=0&&x->hh&&y->hl&&x->hi<y->lo) return x;
    if (isc(y) && y->k>0) {
      mpz_class d=y->k.get_num();
      Lin r; bool ch=false;
      if (x->op==Op::Sum) {
        for(size_t i=0;i<x->a.size();++i){ mpz_class ci=x->c[i].get_num(); mpz_class m=ci-fdiv(ci,d)*d; if (m==0) {ch=true;} else { addTo(r,x->a[i],ci);} }
        mpz_class k=x->k.get_num(); mpz_class km=k-fdiv(k,d)*d; if (km!=k) ch=true; r.k=km;
        if (ch) return imod(fromLin(Sort::I,r),y);
      }
      if (x->op==Op::IMod && isc(x->a[1]) && mpz_class(x->a[1]->k.get_num()%d)==0) return imod(x->a[0],y);
    }
    E e; e.op=Op::IMod; e.s=Sort::I; e.a={x,y}; return wordOf(intern(std::move(e)));
  }
  Ex bitop(Op op, Ex x, Ex y){
    if (isc(x)&&isc(y)) { mpz_class r; auto X=x->k.get_num(), Y=y->k.get_num(); if(op==Op::BAnd) r=X&Y; else if(op==Op::BOr) r=X|Y; else r=X^Y; return ic(r); }
    if (x->id>y->id) std::swap(x,y);
    if (isc(y)) std::swap(x,y);
    if (isc(x)) { // constant first
      mpz_class c=x->k.get_num();
      if (c==0) return op==Op::BAnd? x : y;
      if (op==Op::BAnd) { mpz_class c1=c+1; if (mpz_popcount(c1.get_mpz_t())==1) return imod(y, ic(c1));
        // single bit / contiguous mask: c = (2^m-1)<<k
        size_t k=mpz_scan1(c.get_mpz_t(),0); mpz_class d=(c>>k)+1; if (mpz_popcount(d.get_mpz_t())==1) { Ex t=imod(idiv(y,ic(mpz_class(mpz_class(1)<<k))),ic(d)); return scale(t, mpq_class(mpz_class(1)<<k)); } }
      // or/xor/… with disjoint bits => sum
      if ((op==Op::BOr||op==Op::BXor) && y->hl&&y->lo>=0&&y->hh) { size_t k=mpz_scan1(c.get_mpz_t(),0); if (y->hi < (mpz_class(1)<<k)) return add(x,y); }
    }
    if (x==y) { if(op==Op::BXor) return ic(0); return x; }
    E e; e.op=op; e.s=Sort::I; e.a={x,y}; return wordOf(intern(std::move(e)));
  }
  Ex toReal(Ex x){ if(isc(x)) return rc(x->k);
    if (x->op==Op::Sum) { Lin l; l.k=x->k; for(size_t i=0;i<x->a.size();++i) addTo(l,toReal(x->a[i]),x->c[i]); return fromLin(Sort::R,l); }
    if (x->op==Op::Prod) { Ex r=toReal(x->a[0]); for(size_t i=1;i<x->a.size();++i) r=mul(r,toReal(x->a[i])); return r; }
    if (x->op==Op::Ite) return ite(x->a[0],toReal(x->a[1]),toReal(x->a[2]));
    E e; e.op=Op::ToReal; e.s=Sort::R; e.a={x}; return intern(std::move(e)); }
  Ex floor_(Ex x){ if(isc(x)) return ic(fdiv(x->k.get_num(),x->k.get_den())); if(x->op==Op::ToReal) return x->a[0];
    if (x->op==Op::Sum) { // pull integer parts
      Lin in, re; bool any=false;
      for(size_t i=0;i<x->a.size();++i) if (x->a[i]->op==Op::ToReal && x->c[i].get_den()==1) { addTo(in,x->a[i]->a[0],x->c[i]); any=true; } else addTo(re,x->a[i],x->c[i]);
      mpz_class kf=fdiv(x->k.get_num(),x->k.get_den()); in.k=kf; re.k=x->k-mpq_class(kf); if (kf!=0) any=true;
      if (any) { Ex r=fromLin(Sort::R,re); return add(fromLin(Sort::I,in), floor_(r)); }
    }
    E e; e.op=Op::Floor; e.s=Sort::I; e.a={x}; return intern(std::move(e)); }
  Ex ite(Ex c, Ex x, Ex y){
    if (c==T) return x; if (c==F) return y; if (x==y) return x;
    if (c->op==Op::Not) return ite(c->a[0],y,x);
    if (x->s==Sort::B) {
      if (x==T&&y==F) return c; if (x==F&&y==T) return not_(c);
      return or_({and_({c,x}), and_({not_(c),y})});
    }
    if (x->op==Op::Ite && x->a[0]==c) x=x->a[1];
    if (y->op==Op::Ite && y->a[0]==c) y=y->a[2];
    if (x==y) return x;
    E e; e.op=Op::Ite; e.s=x->s; e.a={c,x,y}; return intern(std::move(e)); }
  Ex not_(Ex x){
    if(x==T) return F; if(x==F) return T; if(x->op==Op::Not) return x->a[0];
    if (x->op==Op::Le && x->a[0]->s==Sort::I) return le0(sub(ic(1),x->a[0]));
    if (x->op==Op::And) { std::vector<Ex> v; for(auto y:x->a) v.push_back(not_(y)); return or_(v); }
    if (x->op==Op::Or) { std::vector<Ex> v; for(auto y:x->a) v.push_back(not_(y)); return and_(v); }
    E e; e.op=Op::Not; e.s=Sort::B; e.a={x}; return intern(std::move(e)); }
  Ex nary(Op op, std::vector<Ex> v){
    Ex zero = op==Op::And? F : T, unit = op==Op::And? T : F;
    std::vector<Ex> w; for(auto x: v){ if(x==zero) return zero; if(x==unit) continue; if(x->op==op) for(auto y:x->a) w.push_back(y); else w.push_back(x); }
    std::sort(w.begin(),w.end(),[](Ex p,Ex q){return p->id<q->id;}); w.erase(std::unique(w.begin(),w.end()),w.end());
    for (auto x: w) { Ex n; if (x->op==Op::Not) n=x->a[0]; else if (x->op==Op::Le&&x->a[0]->s==Sort::I) n=not_(x); else continue; if (std::binary_search(w.begin(),w.end(),n,[](Ex p,Ex q){return p->id<q->id;})) return zero; }
    if (w.empty()) return unit; if (w.size()==1) return w[0];
    E e; e.op=op; e.s=Sort::B; e.a=std::move(w); return intern(std::move(e)); }
  Ex and_(std::vector<Ex> v){return nary(Op::And,std::move(v));}
  Ex or_(std::vector<Ex> v){return nary(Op::Or,std::move(v));}
  Ex implies(Ex a, Ex b){ return or_({not_(a),b}); }
  // d == 0
  Ex eq0(Ex d){
    if (isc(d)) return boolc(d->k==0);
    if (d->s==Sort::I) { if ((d->hl&&d->lo>0)||(d->hh&&d->hi<0)) return F; }
    if (d->op==Op::UF && d->name=="sqrt") return eq0(d->a[0]); // the argument is proved non-negative where the term is built
    if (d->op==Op::Ite && isc(d->a[1]) && isc(d->a[2])) return ite(d->a[0], boolc(d->a[1]->k==0), boolc(d->a[2]->k==0));
    if (d->op==Op::Sum) {
      if (d->a.size()==1 && d->a[0]->op==Op::Ite) { Ex t=d->a[0]; if (isc(t->a[1])||isc(t->a[2])) { 
          Ex x=eq0(add(scale(t->a[1],d->c[0]),konst(d->s,d->k))), y=eq0(add(scale(t->a[2],d->c[0]),konst(d->s,d->k))); return ite(t->a[0],x,y);} }
      if (d->s==Sort::I && d->a.size()>1) { // a word of bits compared with a constant
        bool pos=true, neg=true; for(auto&q:d->c) { if(q<0) pos=false; else neg=false; }
        if (pos||neg) { Lin l; for(size_t i=0;i<d->a.size();++i) addTo(l,d->a[i],neg? mpq_class(-d->c[i]) : d->c[i]); mpz_class v= neg? d->k.get_num() : mpz_class(-d->k.get_num());
          if (v>=0) if (auto b=bits(fromLin(Sort::I,l))) { if (v!=0&&mpz_sizeinbase(v.get_mpz_t(),2)>b->size()) return F; std::vector<Ex> w; for(size_t i=0;i<b->size();++i) w.push_back(mpz_tstbit(v.get_mpz_t(),i)? (*b)[i] : not_((*b)[i])); return and_(w); } } }
      // normalise coefficients
      mpq_class f;
      if (d->s==Sort::I) { mpz_class g=0; for(auto&q:d->c) g=gcd(g,q.get_num()); if (d->k.get_num()%g!=0) return F; f=mpq_class(1)/mpq_class(g); }
      else f=1/d->c[0];
      if (d->c[0]*f<0) f=-f;
      if (f!=1) { Ex r=scale(d,f); return eq0(r); }
    }
    E e; e.op=Op::Eq; e.s=Sort::B; e.a={d}; return intern(std::move(e)); }
  Ex le0(Ex d){ // d <= 0
    if (isc(d)) return boolc(d->k<=0);
    if (d->s==Sort::I) { if (d->hh&&d->hi<=0) return T; if (d->hl&&d->lo>0) return F; }
    if (d->op==Op::Ite && isc(d->a[1]) && isc(d->a[2])) return ite(d->a[0], boolc(d->a[1]->k<=0), boolc(d->a[2]->k<=0));
    if (d->op==Op::Sum) {
      if (d->a.size()==1 && d->a[0]->op==Op::Ite) { Ex t=d->a[0]; if (isc(t->a[1])&&isc(t->a[2])) {
          Ex x=le0(add(scale(t->a[1],d->c[0]),konst(d->s,d->k))), y=le0(add(scale(t->a[2],d->c[0]),konst(d->s,d->k))); return ite(t->a[0],x,y);} }
      if (d->s==Sort::I) { mpz_class g=0; for(auto&q:d->c) g=gcd(g,q.get_num()); if (g!=1) { // sum c a <= -k  => floor(-k/g)
          Lin l; for(size_t i=0;i<d->a.size();++i) addTo(l,d->a[i],mpq_class(d->c[i].get_num()/g)); l.k=-mpq_class(fdiv(-d->k.get_num(),g)); Ex r=fromLin(Sort::I,l); return le0(r);} }
      else { mpq_class f=abs(d->c[0]); if (f!=1) return le0(scale(d,1/f)); }
    }
    E e; e.op=Op::Le; e.s=Sort::B; e.a={d}; return intern(std::move(e)); }
  Ex eq(Ex x, Ex y){
    if (x==y) return T;
    if (x->s==Sort::B) { return or_({and_({x,y}),and_({not_(x),not_(y)})}); }
    return eq0(sub(x,y)); }
  Ex le(Ex x, Ex y){ return le0(sub(x,y)); }
  Ex lt(Ex x, Ex y){ if (x->s==Sort::I) return le0(add(sub(x,y),ic(1))); return not_(le0(sub(y,x))); }
  // substitution
  Ex subst(Ex e, const std::unordered_map<Ex,Ex>& m, std::unordered_map<Ex,Ex>& memo){
    auto it=m.find(e); if(it!=m.end()) return it->second;
    if (e->a.empty()) return e;
    auto im=memo.find(e); if(im!=memo.end()) return im->second;
    std::vector<Ex> n; bool ch=false; for(auto x:e->a){ Ex y=subst(x,m,memo); if(y!=x) ch=true; n.push_back(y);} 
    Ex r=e; if (ch) r=rebuild(e,n);
    memo[e]=r; return r; }
  Ex rebuild(Ex e, const std::vector<Ex>& n){
    switch(e->op){
      case Op::Sum:{ Lin l; l.k=e->k; for(size_t i=0;i<n.size();++i) addTo(l,n[i],e->c[i]); return fromLin(e->s,l);} 
      case Op::Prod:{ Ex r=n[0]; for(size_t i=1;i<n.size();++i) r=mul(r,n[i]); return r;}
      case Op::IDiv: return idiv(n[0],n[1]); case Op::IMod: return imod(n[0],n[1]); case Op::RDiv: return rdiv(n[0],n[1]);
      case Op::Ite: return ite(n[0],n[1],n[2]); case Op::Eq: return eq0(n[0]); case Op::Le: return le0(n[0]);
      case Op::And: return and_(n); case Op::Or: return or_(n); case Op::Not: return not_(n[0]);
      case Op::UF: { Ex u=uf(e->s,e->name,n); E*m=const_cast<E*>(u); if(e->hl&&!m->hl){m->hl=true;m->lo=e->lo;} if(e->hh&&!m->hh){m->hh=true;m->hi=e->hi;} return u; }
      case Op::ToReal: return toReal(n[0]); case Op::Floor: return floor_(n[0]);
      case Op::BAnd: case Op::BOr: case Op::BXor: return bitop(e->op,n[0],n[1]);
      default: return e; }
  }
};
