// z3 back end: translation, slicing, caching, models.
#pragma once
#include "expr.hh"
#include "poly.hh"
#include <z3++.h>
#include <chrono>
#include <iostream>

enum class Res { Sat, Unsat, Unknown };
struct Model { std::shared_ptr<z3::model> m; };

struct Solver {
  ExprPool& P; z3::context ctx;
  std::unordered_map<Ex, z3::expr> tr;
  std::unordered_map<Ex, std::vector<Ex>> rangeOf; // per expr: range side conditions
  std::map<std::vector<int>, Res> cache;
  double time=0; long queries=0; long hits=0; std::map<std::string,long> byBackend;
  std::unordered_map<Ex, std::shared_ptr<std::set<int>>> varsMemo;
  unsigned seed=1;
  std::unordered_map<int,int> constApp, termApp;
  bool linked(const std::set<int>& need, const std::set<int>& v){
    for(int x:v){ auto c=constApp.find(x); if(c!=constApp.end()){ if(need.count(c->second)) return true; continue; } if(need.count(x)) return true; auto t=termApp.find(x); if(t!=termApp.end()&&need.count(t->second)) return true; }
    return false; }
  Solver(ExprPool& p):P(p){}
  // leaf symbols (variables and uninterpreted function names) occurring in e
  std::shared_ptr<std::set<int>> vars(Ex e){
    auto it=varsMemo.find(e); if(it!=varsMemo.end()) return it->second;
    auto s=std::make_shared<std::set<int>>();
    if (e->op==Op::Var) s->insert(e->id);
    if (e->op==Op::UF && e->name!="sqrt") {
      // applications to constants are symbols of their own; they are linked to others only through applications to terms
      bool k=!e->a.empty(); for(auto x:e->a) if(!ExprPool::isc(x)) k=false;
      if(k){ int c=P.var(Sort::I,"\x01ufc:"+e->name)->id, t=P.var(Sort::I,"\x01uf:"+e->name)->id; constApp[c]=t; termApp[t]=c; s->insert(c); s->insert(P.var(Sort::I,"\x01app:"+std::to_string(e->id))->id); }
      else s->insert(P.var(Sort::I,"\x01uf:"+e->name)->id);
    }
    for(auto x:e->a){ auto t=vars(x); s->insert(t->begin(),t->end()); }
    return varsMemo[e]=s; }
  z3::expr num(Sort s, const mpq_class& q){ std::string v=q.get_str(); return s==Sort::I? ctx.int_val(v.c_str()) : ctx.real_val(v.c_str()); }
  z3::expr z(Ex e){
    auto it=tr.find(e); if(it!=tr.end()) return it->second;
    z3::expr r=mk(e); tr.emplace(e,r); return r; }
  z3::expr mk(Ex e){
    switch(e->op){
      case Op::True: return ctx.bool_val(true); case Op::False: return ctx.bool_val(false);
      case Op::Const: return num(e->s,e->k);
      case Op::Var: return e->s==Sort::I? ctx.int_const(e->name.c_str()) : e->s==Sort::R? ctx.real_const(e->name.c_str()) : ctx.bool_const(e->name.c_str());
      case Op::Sum: { z3::expr_vector v(ctx); if(e->k!=0) v.push_back(num(e->s,e->k)); for(size_t i=0;i<e->a.size();++i) v.push_back(e->c[i]==1? z(e->a[i]) : num(e->s,e->c[i])*z(e->a[i])); return v.size()==1? v[0] : z3::sum(v); }
      case Op::Prod: { z3::expr r=z(e->a[0]); for(size_t i=1;i<e->a.size();++i) r=r*z(e->a[i]); return r; }
      case Op::IDiv: return z3::expr(ctx, Z3_mk_div(ctx,z(e->a[0]),z(e->a[1])));
      case Op::IMod: return z3::mod(z(e->a[0]),z(e->a[1]));
      case Op::RDiv: return z(e->a[0])/z(e->a[1]);
      case Op::Ite: return z3::ite(z(e->a[0]),z(e->a[1]),z(e->a[2]));
      case Op::Eq: return z(e->a[0])==num(e->a[0]->s,0);
      case Op::Le: return z(e->a[0])<=num(e->a[0]->s,0);
      case Op::And: { z3::expr_vector v(ctx); for(auto x:e->a) v.push_back(z(x)); return z3::mk_and(v); }
      case Op::Or: { z3::expr_vector v(ctx); for(auto x:e->a) v.push_back(z(x)); return z3::mk_or(v); }
      case Op::Not: return !z(e->a[0]);
      case Op::ToReal: return z3::to_real(z(e->a[0]));
      case Op::Floor: return z3::expr(ctx,Z3_mk_real2int(ctx,z(e->a[0])));
      case Op::BAnd: case Op::BOr: case Op::BXor: { unsigned w=64; if(e->a[0]->hh&&e->a[1]->hh){ mpz_class m=std::max(e->a[0]->hi,e->a[1]->hi); w=std::max<size_t>(1,mpz_sizeinbase(m.get_mpz_t(),2)); }
        z3::expr x=z3::int2bv(w,z(e->a[0])), y=z3::int2bv(w,z(e->a[1])); z3::expr r= e->op==Op::BAnd? (x&y) : e->op==Op::BOr? (x|y) : (x^y); return z3::bv2int(r,false); }
      case Op::UF: { z3::sort_vector dom(ctx); z3::expr_vector args(ctx); std::string sig=e->name+"/"; auto so=[&](Sort s){ return s==Sort::I? ctx.int_sort(): s==Sort::R? ctx.real_sort(): ctx.bool_sort(); };
        for(auto x:e->a){ dom.push_back(so(x->s)); args.push_back(z(x)); sig+= x->s==Sort::I?'i':x->s==Sort::R?'r':'b'; }
        if (e->a.empty()) return ctx.constant((e->name+"/").c_str(), so(e->s));
        return ctx.function(sig.c_str(),dom,so(e->s))(args); }
      default: throw std::runtime_error("z3 translation");
    } }
  // range facts of variables / applications inside e
  const std::vector<Ex>& ranges(Ex e){
    auto it=rangeOf.find(e); if(it!=rangeOf.end()) return it->second;
    std::vector<Ex> r; std::unordered_set<Ex> seen; std::function<void(Ex)> go=[&](Ex x){ if(!seen.insert(x).second) return;
      if ((x->op==Op::Var||x->op==Op::UF)&&x->s==Sort::I&&(x->hl||x->hh)) r.push_back(x);
      if (x->op==Op::UF && x->name=="sqrt") r.push_back(x);
      if (x->op==Op::UF && (x->name=="sin"||x->name=="cos")) r.push_back(x);
      for(auto y:x->a) go(y); }; go(e);
    return rangeOf[e]=r; }
  void addAll(z3::solver& s, const std::vector<Ex>& cs){
    std::unordered_set<Ex> rs;
    for(auto c:cs){ s.add(z(c)); for(auto r:ranges(c)) rs.insert(r); }
    for(auto r:rs){ z3::expr v=z(r); if(r->s==Sort::I){ if(r->hl) s.add(v>=num(Sort::I,mpq_class(r->lo))); if(r->hh) s.add(v<=num(Sort::I,mpq_class(r->hi))); }
      else if (r->name=="sqrt") { s.add(v>=0); s.add(z3::implies(z(r->a[0])>=0, v*v==z(r->a[0]))); }
      else { s.add(v>=-1 && v<=1); } }
  }
  std::vector<Ex> slice(const std::vector<Ex>& pc, Ex q){
    std::set<int> need=*vars(q); std::vector<char> in(pc.size(),0); bool ch=true;
    std::vector<Ex> out;
    while(ch){ ch=false; for(size_t i=0;i<pc.size();++i) if(!in[i]){ auto v=vars(pc[i]); if(linked(need,*v)){ in[i]=1; ch=true; need.insert(v->begin(),v->end()); } } }
    for(size_t i=0;i<pc.size();++i) if(in[i]) out.push_back(pc[i]);
    return out; }
  // is pc /\ q satisfiable?
  Res sat(const std::vector<Ex>& pc, Ex q, unsigned ms, Model* mod=nullptr, bool full=false){
    if (q==P.F) return Res::Unsat;
    std::vector<Ex> cs = full? pc : slice(pc,q); cs.push_back(q);
    if (q==P.T && !full) return Res::Sat;
    std::vector<int> key; for(auto c:cs) key.push_back(c->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
    if(!mod){ auto it=cache.find(key); if(it!=cache.end() && it->second!=Res::Unknown){ ++hits; return it->second; } }
    auto t0=std::chrono::steady_clock::now();
    ++queries;
    Res res=Res::Unknown;
    bool nl=false, pureReal=true; { std::unordered_set<Ex> seen; std::function<void(Ex)> go=[&](Ex x){ if(!seen.insert(x).second) return; if(x->op==Op::Prod||x->op==Op::RDiv) nl=true; if(x->s==Sort::I||x->op==Op::UF) pureReal=false; for(auto y:x->a) go(y);}; for(auto c:cs) go(c); }
    auto run=[&](z3::solver s, unsigned t, const char* nm){ z3::params p(ctx); p.set("timeout",t); p.set("random_seed",seed); try { s.set(p); } catch(z3::exception&) { z3::params p2(ctx); p2.set("timeout",t); s.set(p2);} 
      try { addAll(s,cs); auto r=s.check(); if(r==z3::unsat) res=Res::Unsat; else if(r==z3::sat){ res=Res::Sat; if(mod) mod->m=std::make_shared<z3::model>(s.get_model()); } } catch(z3::exception& ex){ res=Res::Unknown; } byBackend[nm]++; };
    if (nl && pureReal) { run(z3::tactic(ctx,"qfnra-nlsat").mk_solver(), ms/2, "z3-nlsat"); }
    if (res==Res::Unknown) run(z3::solver(ctx), ms, "z3-smt");
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); time+=dt;
    static double slow=getenv("VP_SLOW")? atof(getenv("VP_SLOW")) : 1e9; if(dt>slow){ std::cerr<<"query "<<dt<<" s, "<<cs.size()<<" constraints, result "<<(int)res<<(full?" full":"")<<(mod?" model":"")<<": "<<z(q).to_string().substr(0,400)<<"\n"; }
    if(!mod) cache[key]=res;
    return res; }
};
