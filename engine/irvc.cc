// irvc: verification-condition generator and prover for LLVM IR extracted
// from the real C++ sources. See DESIGN.md for semantics and assumptions.
#include "expr.hh"
#include "poly.hh"
#include "solver.hh"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <memory>
#include <fstream>
#include <sstream>
#include <iostream>
#include <deque>
#include <cmath>
#include <cstring>
using namespace llvm;

static ExprPool P;
static Solver* S;
static Normaliser* N;
static const DataLayout* DL;

struct Parts;
struct Val {
  enum K : uint8_t { None, Undef, Int, Real, Ptr, Agg, Mix } k=None;
  uint16_t bits=0; int obj=0; Ex e=nullptr;
  std::shared_ptr<std::vector<Val>> agg; std::shared_ptr<Parts> mix; // Mix: integer register holding several memory cells
  static Val I(unsigned b, Ex e){ Val v; v.k=Int; v.bits=b; v.e=e; return v; }
  static Val C(unsigned b, long c){ return b==1? B(c&1) : I(b,P.ic(c)); }
  static Val B(bool c){ return I(1,P.boolc(c)); }
  static Val R(Ex e){ Val v; v.k=Real; v.e=e; v.bits=64; return v; }
  static Val Pt(int o, Ex off){ Val v; v.k=Ptr; v.obj=o; v.e=off; v.bits=64; return v; }
  static Val Null(){ return Pt(0,P.ic(0)); }
};

struct Cell { Val v; unsigned size; };
struct Parts { std::vector<std::pair<unsigned,Cell>> p; unsigned size; };
struct Obj {
  uint64_t size=0; bool freed=false; bool ro=false; uint8_t kind=0; // 0 global 1 stack 2 heap 3 exception
  std::map<uint64_t,Cell> cells; bool zeroFill=false; std::string name;
};

struct Operand { int slot=-1; Val c; };
struct InstI { Instruction* I; std::vector<Operand> ops; int dst=-1; int loc=-1; };
struct FnI { Function* F; std::unordered_map<const BasicBlock*,int> bbi; std::vector<std::vector<InstI>> bbs; std::vector<const BasicBlock*> bbp; int nslots=0; std::unordered_map<const Value*,int> slots; };
struct Frame { FnI* f; int bb=0, ip=0, prev=-1; std::vector<Val> regs; std::vector<int> allocas; std::vector<Val> va; };
struct NdRec { char kind; std::string name; Ex e; };
struct UfRec { std::string name; std::vector<Ex> args; Ex e; };
struct Exn { Val ptr; GlobalVariable* ti=nullptr; std::string tn; };

struct State {
  std::vector<Frame> st;
  std::unordered_map<int,std::shared_ptr<Obj>> mem;
  int nextObj=1<<20;
  std::vector<Ex> pc; std::unordered_set<Ex> pcs;
  std::unordered_map<Ex,Ex> canonMemo[2]; // key e (64-bit), unsigned/signed
  std::map<std::tuple<Ex,unsigned,bool>,Ex> canonM;
  std::vector<NdRec> nd; std::vector<UfRec> ufs;
  std::map<std::string,int> ndCount;
  Exn exn; std::vector<Exn> caught;
  long steps=0; int forks=0; long heapLive=0;
  std::map<std::pair<Instruction*,int>,int> concCount;
};

struct PathEnd { std::string why; };
struct Unsupported { std::string why; };

struct Violation { std::string name, where, model; std::vector<std::string> lines; };
struct Oblig { long ok=0, bad=0, unk=0; double t=0; std::string back; };
static std::map<std::string,Oblig> obls;
static std::vector<Violation> viols;
static std::map<std::string,bool> covers; static std::set<std::string> coverNames;
static std::set<std::string> notes; static std::map<std::string,long> ends;
static long paths=0, totalSteps=0, safetyOk=0; static std::set<std::string> undec;
static long byPoly=0, byConst=0, byZ3=0;
static std::deque<std::unique_ptr<State>> work;
static State* cur; static Module* M;
static unsigned tmoBranch=3000, tmoAssert=20000; static long maxPaths=200000, maxSteps=150000000; static double maxTime=600;
static auto T0=std::chrono::steady_clock::now();
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }
static int maxViol=3; static bool verbose=false;

static std::unordered_map<const GlobalValue*,int> gid; static std::vector<const GlobalValue*> gobj;
static std::unordered_map<int,std::shared_ptr<Obj>> ginit;
static std::unordered_map<Function*,std::unique_ptr<FnI>> fns;
struct Loc { std::string file; unsigned line; std::string fn; bool hit=false; };
static std::vector<Loc> locs; static std::map<std::tuple<std::string,unsigned,std::string>,int> locId;

static std::string locStr(int l){ if(l<0) return "?"; return locs[l].file+":"+std::to_string(locs[l].line); }
static std::string where(){ if(!cur||cur->st.empty()) return "?"; std::string s; for(int i=(int)cur->st.size()-1;i>=0&&i>(int)cur->st.size()-6;--i){ auto&f=cur->st[i]; if(f.ip<(int)f.f->bbs[f.bb].size()){ int l=f.f->bbs[f.bb][f.ip].loc; s+=(s.empty()?"":" <- ")+locStr(l)+" ("+demangle(f.f->F->getName().str()).substr(0,160)+")"; } } return s; }

static mpz_class pow2(unsigned n){ return mpz_class(1)<<n; }
static mpz_class ap2z(const APInt& a, bool sgn){ SmallString<64> s; a.toString(s,10,sgn); return mpz_class(std::string(s.c_str())); }

static void addPC(Ex c){ if(c==P.T) return; if(c->op==Op::And){ for(auto x:c->a) addPC(x); return; } if(cur->pcs.insert(c).second) cur->pc.push_back(c); }
static int known(Ex c){ if(c==P.T) return 1; if(c==P.F) return 0; if(cur->pcs.count(c)) return 1; if(cur->pcs.count(P.not_(c))) return 0;
  auto strict=[&](Ex d){ Ex l=P.le0(d); return cur->pcs.count(P.not_(l))>0; }; // 0 < d is assumed
  if(c->op==Op::Le&&c->a[0]->s==Sort::R&&strict(P.neg(c->a[0]))) return 1;
  if(c->op==Op::Eq&&c->a[0]->s==Sort::R&&(strict(c->a[0])||strict(P.neg(c->a[0])))) return 0;
  if(c->op==Op::Not){ Ex d=c->a[0]; if(d->op==Op::Eq&&d->a[0]->s==Sort::R&&(strict(d->a[0])||strict(P.neg(d->a[0])))) return 1; if(d->op==Op::Le&&d->a[0]->s==Sort::R&&strict(P.neg(d->a[0]))) return 0; }
  return -1; }
// PC |- c ?
static Ex propagate(Ex c); 
static bool proves(Ex c, unsigned ms){ int k=known(c); if(k>=0) return k; return S->sat(cur->pc,P.not_(c),ms)==Res::Unsat; }
static std::string where(); static bool showForks=getenv("VP_FORKS")!=nullptr;
static void forkWith(Ex c){ if(showForks) std::cerr<<"fork at "<<where()<<"\n"; auto n=std::make_unique<State>(*cur); State* save=cur; cur=n.get(); addPC(c); cur->forks++; cur=save; work.push_back(std::move(n)); }
// decide c; forks when both outcomes are possible (the clone re-executes the instruction)
static bool decide(Ex c){
  int k=known(c); if(k>=0) return k;
  Ex nc=P.not_(c);
  Res a=S->sat(cur->pc,c,tmoBranch); if(a==Res::Unsat){ addPC(nc); return false; }
  Res b=S->sat(cur->pc,nc,tmoBranch); if(b==Res::Unsat){ addPC(c); return true; }
  forkWith(nc); addPC(c); cur->forks++; return true; }
static mpq_class modelVal(Model& m, Ex e);
static Ex canon(Ex e, unsigned n, bool sg){
  mpz_class w=pow2(n), L= sg? mpz_class(-pow2(n-1)) : mpz_class(0), H= sg? mpz_class(pow2(n-1)-1) : mpz_class(w-1);
  if(e->hl&&e->hh&&e->lo>=L&&e->hi<=H) return e;
  if(ExprPool::isc(e)){ mpz_class k=ExprPool::fdiv(e->k.get_num()-L,w); return P.ic(mpz_class(e->k.get_num()-k*w)); }
  auto key=std::make_tuple(e,n,sg); auto it=cur->canonM.find(key); if(it!=cur->canonM.end()) return it->second;
  Ex r=nullptr; mpz_class kmin,kmax; bool b=e->hl&&e->hh;
  if(b){ kmin=ExprPool::fdiv(e->lo-L,w); kmax=ExprPool::fdiv(e->hi-L,w); if(kmin==kmax) r=P.sub(e,P.ic(mpz_class(kmin*w))); }
  if(!r){ std::vector<mpz_class> ks={0}; if(b){ if(kmin>0||kmax<0) ks.clear(); if(kmin!=0) ks.push_back(kmin); if(kmax!=0) ks.push_back(kmax);} 
    for(auto&k:ks){ Ex x=P.sub(e,P.ic(mpz_class(k*w))); if(proves(P.and_({P.le(P.ic(L),x),P.le(x,P.ic(H))}),tmoBranch)){ r=x; break; } } }
  if(!r && b && kmax==kmin+1){ Ex x=P.sub(e,P.ic(mpz_class(kmin*w))); r=P.ite(P.le(x,P.ic(H)),x,P.sub(x,P.ic(w))); }
  if(!r){ r=P.add(P.imod(P.sub(e,P.ic(L)),P.ic(w)),P.ic(L)); }
  cur->canonM[key]=r; return r; }
static Ex boolInt(const Val& v){ return P.ite(v.e,P.ic(1),P.ic(0)); }
static Ex ue(const Val& v){ if(v.bits==1) return boolInt(v); return canon(v.e,v.bits,false); }
static Ex se(const Val& v){ if(v.bits==1) return P.neg(boolInt(v)); return canon(v.e,v.bits,true); }
static Ex raw(const Val& v){ if(v.bits==1) return boolInt(v); return v.e; }
static Val mkInt(unsigned bits, Ex e){ if(bits==1){ return Val::I(1, P.eq0(P.sub(P.imod(e,P.ic(2)),P.ic(1)))); }
  if(ExprPool::isc(e)) return Val::I(bits,canon(e,bits,false)->k<mpq_class(pow2(bits-1))? canon(e,bits,false):canon(e,bits,true));
  if(!(e->hl&&e->hh)||e->lo< -pow2(bits+10)||e->hi>pow2(bits+10)) e=canon(e,bits,false);
  return Val::I(bits,e); }
static int freshN=0;
static Val freshOf(Type* t, const std::string& nm){
  std::string n=nm+"!"+std::to_string(freshN++);
  if(t->isIntegerTy(1)) return Val::I(1,P.var(Sort::B,n));
  if(t->isIntegerTy()) return Val::I(t->getIntegerBitWidth(),P.varRange(n,0,pow2(t->getIntegerBitWidth())-1));
  if(t->isFloatingPointTy()) return Val::R(P.var(Sort::R,n));
  throw Unsupported{"undef of aggregate/pointer type used"}; }

// ---- obligations
static std::string modelText(Model& m, std::vector<std::string>& lines){
  std::ostringstream o;
  auto val=[&](Ex e)->std::string{ z3::expr v=m.m->eval(S->z(e),true); if(e->s==Sort::B) return v.is_true()?"1":"0"; if(v.is_algebraic()) v=z3::expr(S->ctx,Z3_get_algebraic_number_lower(S->ctx,v,40)); std::string s; if(v.is_numeral()) { if(e->s==Sort::I) s=v.get_decimal_string(0); else { s=z3::expr(v.numerator()).get_decimal_string(0)+"/"+z3::expr(v.denominator()).get_decimal_string(0); } } else s="0"; return s; };
  for(auto&r:cur->nd){ lines.push_back(std::string("nd ")+r.kind+" "+r.name+" "+val(r.e)); }
  for(auto&u:cur->ufs){ std::string l="uf "+u.name+" "+std::to_string(u.args.size()); for(auto a:u.args) l+=" "+val(a); l+=" "+val(u.e); lines.push_back(l); }
  for(auto&l:lines) o<<l<<"; "; return o.str(); }
static void fail(const std::string& name, Model& m){
  auto&o=obls[name]; o.bad++; for(auto&v:viols) if(v.name==name) return;
  Violation v; v.name=name; v.where=where(); v.model=modelText(m,v.lines); viols.push_back(v);
  if(verbose) std::cerr<<"VIOLATION "<<name<<" at "<<v.where<<"\n  "<<v.model<<"\n"; }
static void collectIteConds(Ex e, std::unordered_set<Ex>& seen, std::vector<Ex>& out){ if(!seen.insert(e).second) return; if(e->op==Op::Ite) out.push_back(e->a[0]); for(auto x:e->a) collectIteConds(x,seen,out); }
// solve PC's linear equalities over real/int variables for substitution
static Ex applyEqualities(Ex e){
  for(int round=0;round<8;++round){ bool ch=false;
    for(auto c:cur->pc) if(c->op==Op::Eq && (c->a[0]->s==e->s||c->a[0]->s==Sort::I)){ Ex d=c->a[0]; auto vs=S->vars(e); 
      if(d->op==Op::Var && vs->count(d->id)){ std::unordered_map<Ex,Ex> m{{d,P.konst(d->s,0)}},memo; e=P.subst(e,m,memo); ch=true; continue; }
      if(d->op!=Op::Sum) continue;
      for(size_t i=0;i<d->a.size();++i) if(d->a[i]->op==Op::Var && vs->count(d->a[i]->id)){
        if(d->s==Sort::I && abs(d->c[i])!=1) continue;
        bool other=false; for(size_t j=0;j<d->a.size();++j) if(j!=i && S->vars(d->a[j])->count(d->a[i]->id)) other=true; if(other) continue;
        Ex rhs=P.sub(d->a[i],P.scale(d,1/d->c[i])); std::unordered_map<Ex,Ex> m{{d->a[i],rhs}},memo; e=P.subst(e,m,memo); ch=true; break; } }
    if(!ch) break; }
  return e; }
static bool oblige(Ex c, const std::string& name, bool assumeAfter=true){
  auto t0=now(); auto&o=obls[name];
  if(c==P.T||known(c)==1){ o.ok++; byConst++; return true; }
  if(c->op==Op::Eq&&c->a[0]->s!=Sort::B){ Ex d=c->a[0]; if(N->isZero(d)||N->isZero(applyEqualities(d))){ o.ok++; byPoly++; if(assumeAfter) addPC(c); return true; } }
  Model m; Res r;
  if(c==P.F || known(c)==0) { r=S->sat(cur->pc,P.T,tmoAssert,&m,true); }
  else { r=S->sat(cur->pc,P.not_(c),tmoAssert); if(r==Res::Sat) { r=S->sat(cur->pc,P.not_(c),tmoAssert,&m,true); if(r==Res::Unsat) throw PathEnd{"infeasible"}; } }
  o.t+=now()-t0;
  if(r==Res::Unsat){ if(c==P.F) throw PathEnd{"infeasible"}; o.ok++; byZ3++; if(assumeAfter) addPC(c); return true; }
  if(r==Res::Sat){ fail(name,m); if((int)viols.size()>=maxViol) throw PathEnd{"stop"}; if(c==P.F) throw PathEnd{"violated"}; Res q=S->sat(cur->pc,c,tmoBranch); if(q==Res::Unsat) throw PathEnd{"violated"}; addPC(c); return false; }
  o.unk++; undec.insert(name+" (solver unknown) at "+where()+(verbose? "\n   "+S->z(c).to_string() : "")); if(c==P.F) throw PathEnd{"undecided"}; addPC(c); return false; }
static bool obligeEq(Ex a, Ex b, const std::string& name){
  Ex d=P.sub(a,b); auto&o=obls[name];
  // remove undetermined case distinctions first
  for(;;){ std::unordered_set<Ex> seen; std::vector<Ex> cs; collectIteConds(d,seen,cs); if(cs.empty()) break; std::unordered_map<Ex,Ex> sub,memo; bool did=false; for(auto c:cs){ bool v=decide(c); sub[c]=P.boolc(v); did=true; break; } if(!did) break; d=P.subst(d,sub,memo); }
  if(ExprPool::isc(d)&&d->k==0){ o.ok++; byConst++; return true; }
  if(N->isZero(d)){ o.ok++; byPoly++; return true; }
  Ex d2=applyEqualities(d); if(d2!=d && N->isZero(d2)){ o.ok++; byPoly++; return true; }
  return oblige(P.eq0(d2),name); }
// internal safety obligation: cheap path, named by kind and location
static void safety(Ex c, const char* kind){ if(c==P.T||known(c)==1){ safetyOk++; return; }
  auto& f=cur->st.back(); int l=f.f->bbs[f.bb][f.ip].loc; oblige(c,std::string("safety:")+kind+" at "+locStr(l)); }
static mpq_class modelVal(Model& m, Ex e){ z3::expr v=m.m->eval(S->z(e),true); std::string s; if(!v.is_numeral(s)) return 0; return mpq_class(s); }
// enumerate all feasible values of an integer term
static mpz_class concretize(Ex e, int tag=0){
  if(ExprPool::isc(e)) return e->k.get_num();
  auto& f=cur->st.back(); auto& n=cur->concCount[{f.f->bbs[f.bb][f.ip].I,tag}];
  // candidates: constants of a case distinction, or a small range; otherwise a model of the path condition
  std::set<mpz_class> cand; bool all=true; { std::unordered_set<Ex> seen; std::function<void(Ex)> go=[&](Ex x){ if(!all||!seen.insert(x).second) return; if(ExprPool::isc(x)) cand.insert(x->k.get_num()); else if(x->op==Op::Ite&&cand.size()<64){ go(x->a[1]); go(x->a[2]); } else all=false; }; go(e); }
  if(!all&&e->hl&&e->hh&&e->hi-e->lo<64){ all=true; cand.clear(); for(mpz_class x=e->lo;x<=e->hi;++x) cand.insert(x); }
  mpz_class v; bool got=false;
  if(all) { for(auto&x:cand){ Ex c=P.eq(e,P.ic(x)); int k=known(c); if(k==0) continue; if(k==1||S->sat(cur->pc,c,tmoBranch)!=Res::Unsat){ v=x; got=true; break; } } if(!got) throw PathEnd{"infeasible"}; }
  else { Model m; Res r=S->sat(cur->pc,P.T,tmoAssert,&m,true); if(r==Res::Unsat) throw PathEnd{"infeasible"}; if(r==Res::Unknown) throw Unsupported{"concretize: solver unknown"}; v=modelVal(m,e).get_num(); }
  if(++n>300) throw Unsupported{"concretize: unbounded enumeration at "+where()};
  decide(P.eq(e,P.ic(v))); return v; }

// ---- constants
static Val constVal(const Constant* c);
static int globalId(const GlobalValue* g){ if(auto*a=dyn_cast<GlobalAlias>(g)) return globalId(cast<GlobalValue>(a->getAliaseeObject())); auto it=gid.find(g); if(it!=gid.end()) return it->second; int id=gobj.size()+1; gid[g]=id; gobj.push_back(g); return id; }
static mpq_class simplest(double d){ // exact value, or the small rational the literal stands for
  mpq_class ex(d); if(ex.get_den()<=4096) return ex;
  // Stern-Brocot / continued fraction convergents
  double x=d; mpz_class h0=1,h1=0,k0=0,k1=1; for(int i=0;i<20;++i){ double a=std::floor(x); mpz_class A(a); mpz_class h2=A*h0+h1,k2=A*k0+k1; h1=h0;h0=h2;k1=k0;k0=k2; if(k0>20000) break; mpq_class q(h0,k0); q.canonicalize(); if(q.get_d()==d) return q; if(x==a) break; x=1/(x-a); }
  return ex; }
// the real number a floating point literal stands for: a small rational, a small rational times the
// root of two (within four units in the last place), or its exact value
static Ex literal(double d){ mpq_class q=simplest(d); if(q.get_den()<=20000) return P.rc(q); double r=d/std::sqrt(2.), m=std::ldexp(r,10), n=std::nearbyint(m); if(n!=0&&std::fabs(n)<1e6&&std::fabs(n*std::sqrt(2.)/1024-d)<=4*std::numeric_limits<double>::epsilon()*std::fabs(d)) return P.scale(P.uf(Sort::R,"sqrt",{P.rc(2)}),[&]{ mpq_class t((long)n,1024); t.canonicalize(); return t; }()); return P.rc(q); }
static Val constFP(const ConstantFP* f){ bool lose; APFloat v=f->getValueAPF(); v.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&lose); double d=v.convertToDouble(); if(!std::isfinite(d)){ return Val::R(P.var(Sort::R, std::isnan(d)?"#nan": d>0?"#inf":"#-inf")); } return Val::R(literal(d)); }
static Val constVal(const Constant* c){
  if(auto*i=dyn_cast<ConstantInt>(c)){ unsigned b=i->getBitWidth(); if(b==1) return Val::B(i->isOne()); return Val::I(b,P.ic(ap2z(i->getValue(),true))); }
  if(auto*f=dyn_cast<ConstantFP>(c)) return constFP(f);
  if(isa<ConstantPointerNull>(c)) return Val::Null();
  if(isa<UndefValue>(c)){ Type*t=c->getType(); if(auto*s=dyn_cast<StructType>(t)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); for(auto*e:s->elements()) v.agg->push_back(constVal(UndefValue::get(e))); return v; } if(auto*s=dyn_cast<ArrayType>(t)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); for(unsigned i=0;i<s->getNumElements();++i) v.agg->push_back(constVal(UndefValue::get(s->getElementType()))); return v; } Val v; v.k=Val::Undef; return v; }
  if(auto*g=dyn_cast<GlobalValue>(c)) return Val::Pt(globalId(g),P.ic(0));
  if(isa<ConstantAggregateZero>(c)||isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); unsigned n= isa<StructType>(c->getType())? c->getType()->getStructNumElements() : isa<ArrayType>(c->getType())? c->getType()->getArrayNumElements() : cast<FixedVectorType>(c->getType())->getNumElements(); for(unsigned i=0;i<n;++i) v.agg->push_back(constVal(c->getAggregateElement(i))); return v; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) throw Unsupported{"const gep"}; Val b=constVal(cast<Constant>(g->getPointerOperand())); return Val::Pt(b.obj,P.add(b.e,P.ic(ap2z(off,true)))); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: { Val b=constVal(ce->getOperand(0)); b.bits=DL->getTypeSizeInBits(ce->getType()); return b; }
      case Instruction::IntToPtr: { Val b=constVal(ce->getOperand(0)); if(b.k==Val::Int) return Val::Pt(0,b.e); return b; }
      case Instruction::Sub: { Val a=constVal(ce->getOperand(0)), b=constVal(ce->getOperand(1)); if(a.k==Val::Ptr&&b.k==Val::Ptr&&a.obj==b.obj) return Val::I(64,P.sub(a.e,b.e)); break; }
      case Instruction::Trunc: { Val a=constVal(ce->getOperand(0)); if(a.k==Val::Int) return mkInt(ce->getType()->getIntegerBitWidth(),a.e); break; }
    }
    std::string s; raw_string_ostream o(s); c->print(o); throw Unsupported{"constexpr "+s}; }
  std::string s; raw_string_ostream o(s); c->print(o); throw Unsupported{"constant "+s}; }
static Ex addrOf(const Val& p){ return P.add(P.ic(mpz_class(p.obj)*mpz_class(1<<20)*mpz_class(16)),p.e); }

// ---- memory
static void initCells(Obj& o, const Constant* c, uint64_t off){
  Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)){ uint64_t sz=DL->getTypeAllocSize(t); if(isa<UndefValue>(c)&&!isa<ConstantAggregateZero>(c)) return; for(uint64_t i=0;i<sz;){ unsigned n=std::min<uint64_t>(8,sz-i); if(n!=8) n=1; o.cells[off+i]=Cell{Val::I(n*8,P.ic(0)),n}; i+=n; } return; }
  if(auto*s=dyn_cast<ConstantStruct>(c)){ auto*l=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();++i) initCells(o,s->getOperand(i),off+l->getElementOffset(i)); return; }
  if(auto*a=dyn_cast<ConstantArray>(c)){ uint64_t es=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();++i) initCells(o,a->getOperand(i),off+i*es); return; }
  if(auto*a=dyn_cast<ConstantDataSequential>(c)){ uint64_t es=a->getElementByteSize(); for(unsigned i=0;i<a->getNumElements();++i) o.cells[off+i*es]=Cell{constVal(a->getElementAsConstant(i)),(unsigned)es}; return; }
  unsigned sz=DL->getTypeStoreSize(t); Val v=constVal(c); if(v.bits==1&&v.k==Val::Int) v=Val::I(8,boolInt(v)); o.cells[off]=Cell{v,sz}; }
static std::shared_ptr<Obj>& objRef(int id){
  auto it=cur->mem.find(id); if(it!=cur->mem.end()) return it->second;
  if(id>0&&id<=(int)gobj.size()){
    auto ig=ginit.find(id); if(ig==ginit.end()){ auto o=std::make_shared<Obj>(); const GlobalValue*g=gobj[id-1]; o->name=g->getName().str();
      if(auto*v=dyn_cast<GlobalVariable>(g)){ o->size= v->getValueType()->isSized()? (uint64_t)DL->getTypeAllocSize(v->getValueType()) : 0; o->ro=v->isConstant(); if(v->hasInitializer()) initCells(*o,v->getInitializer(),0); else o->size=std::max<uint64_t>(o->size,4096); }
      ig=ginit.emplace(id,o).first; }
    return cur->mem.emplace(id,ig->second).first->second; }
  static std::shared_ptr<Obj> nul; nul=nullptr; return nul; }
static Obj* rd(int id){ return objRef(id).get(); }
static Obj* wr(int id){ auto&p=objRef(id); if(p.use_count()>1) p=std::make_shared<Obj>(*p); return p.get(); }
static int newObj(uint64_t size, uint8_t kind, const std::string& nm){ int id=cur->nextObj++; auto o=std::make_shared<Obj>(); o->size=size; o->kind=kind; o->name=nm; cur->mem[id]=o; return id; }
static Ex byteOf(const Val& v, unsigned i){ Ex e=canon(raw(v),v.bits,false); return P.imod(P.idiv(e,P.ic(pow2(8*i))),P.ic(256)); }
static void eraseRange(Obj& o, uint64_t off, uint64_t n){
  // split overlapping cells
  auto it=o.cells.upper_bound(off); if(it!=o.cells.begin()){ --it; if(it->first+it->second.size<=off) ++it; }
  while(it!=o.cells.end()&&it->first<off+n){
    uint64_t b=it->first; Cell c=it->second; it=o.cells.erase(it);
    if(b>=off && b+c.size<=off+n) continue;
    if(c.v.k==Val::Undef) continue;
    if(c.v.k==Val::Int){ for(unsigned i=0;i<c.size;++i) if(b+i<off||b+i>=off+n) o.cells[b+i]=Cell{Val::I(8,byteOf(c.v,i)),1}; }
    // partially overwritten pointers/reals lose their remaining bytes (reads of them are undefined)
    it=o.cells.lower_bound(std::max(b+c.size,off)); }
}
static void storeAt(Obj& o, uint64_t off, const Val& v, unsigned sz){
  auto it=o.cells.find(off); if(it!=o.cells.end()&&it->second.size==sz){ it->second.v=v; return; }
  eraseRange(o,off,sz); o.cells[off]=Cell{v,sz}; }
static Val flat(const Val& v){ if(v.k!=Val::Mix) return v; Ex acc=P.ic(0); uint64_t cov=0; for(auto&q:v.mix->p){ if(q.second.v.k!=Val::Int) throw Unsupported{"integer use of a register holding pointers/reals"}; acc=P.add(acc,P.scale(canon(raw(q.second.v),q.second.size*8,false),mpq_class(pow2(8*q.first)))); cov+=q.second.size; }
  if(cov<v.mix->size){ std::vector<bool> h(v.mix->size); for(auto&q:v.mix->p) for(unsigned i=0;i<q.second.size;++i) h[q.first+i]=true; for(unsigned i=0;i<v.mix->size;++i) if(!h[i]) acc=P.add(acc,P.scale(P.varRange("undefbyte!"+std::to_string(freshN++),0,255),mpq_class(pow2(8*i)))); }
  return Val::I(v.bits,acc); }
static Val castTo(const Val& v0, Type* t){ Val v=v0; if(v.k==Val::Mix&&!t->isIntegerTy()){ if(v.mix->p.size()==1&&v.mix->p[0].second.size==v.mix->size) v=v.mix->p[0].second.v; else v=flat(v); } if(v.k==Val::Mix) return v; // reinterpret same-size value
  if(v.k==Val::Undef) return v;
  if(t->isPointerTy()){ if(v.k==Val::Ptr) return v; if(v.k==Val::Int){ if(ExprPool::isc(v.e)&&v.e->k==0) return Val::Null(); return Val::Pt(0,v.e);} }
  if(t->isIntegerTy()){ unsigned b=t->getIntegerBitWidth(); if(v.k==Val::Int){ if(b==1) return mkInt(1,raw(v)); if(v.bits==b) return v; return mkInt(b,canon(raw(v),v.bits,false)); } if(v.k==Val::Ptr){ Val r=v; r.bits=b; return r; } if(v.k==Val::Real){ if(ExprPool::isc(v.e)){ double d=v.e->k.get_d(); if(b==64){ uint64_t u; memcpy(&u,&d,8); return Val::I(64,P.ic(mpz_class(std::to_string(u)))); } } Val r=v; r.bits=b; return r; } }
  if(t->isFloatingPointTy()){ if(v.k==Val::Real) return v; if(v.k==Val::Int&&ExprPool::isc(v.e)){ if(v.e->k==0) return Val::R(P.rc(0)); mpz_class u=canon(v.e,v.bits,false)->k.get_num(); if(t->isDoubleTy()){ uint64_t x=mpz_get_ui(u.get_mpz_t()); double d; memcpy(&d,&x,8); return Val::R(literal(d)); } uint32_t x=mpz_get_ui(u.get_mpz_t()); float fl; memcpy(&fl,&x,4); return Val::R(P.rc(simplest(fl))); } }
  throw Unsupported{"reinterpretation of memory"}; }
static Val loadAt(Obj* o, uint64_t off, Type* t){
  if(auto*s=dyn_cast<StructType>(t)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); auto*l=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();++i) v.agg->push_back(loadAt(o,off+l->getElementOffset(i),s->getElementType(i))); return v; }
  if(auto*s=dyn_cast<ArrayType>(t)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); uint64_t es=DL->getTypeAllocSize(s->getElementType()); for(unsigned i=0;i<s->getNumElements();++i) v.agg->push_back(loadAt(o,off+i*es,s->getElementType())); return v; }
  if(auto*s=dyn_cast<FixedVectorType>(t)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); uint64_t es=DL->getTypeAllocSize(s->getElementType()); for(unsigned i=0;i<s->getNumElements();++i) v.agg->push_back(loadAt(o,off+i*es,s->getElementType())); return v; }
  unsigned sz=DL->getTypeStoreSize(t);
  auto it=o->cells.find(off);
  if(it!=o->cells.end()&&it->second.size==sz) return castTo(it->second.v,t);
  if(t->isIntegerTy()){ // several whole cells in one register
    auto a=o->cells.lower_bound(off); bool whole=true; if(a!=o->cells.begin()){ auto b=std::prev(a); if(b->first+b->second.size>off) whole=false; }
    auto ps=std::make_shared<Parts>(); ps->size=sz; for(auto b=a;whole&&b!=o->cells.end()&&b->first<off+sz;++b){ if(b->first+b->second.size>off+sz) whole=false; else if(b->second.v.k!=Val::Undef) ps->p.push_back({(unsigned)(b->first-off),b->second}); }
    if(whole&&!ps->p.empty()){ Val v; v.k=Val::Mix; v.bits=sz*8; v.mix=ps; return v; } }
  // assemble
  Ex acc=P.ic(0); bool any=false, allUndef=true; uint64_t p=off; 
  std::vector<std::pair<unsigned,Ex>> parts;
  while(p<off+sz){ auto j=o->cells.upper_bound(p); if(j==o->cells.begin()){ p++; any=true; parts.push_back({(unsigned)(p-1-off),nullptr}); continue; } --j; if(j->first+j->second.size<=p){ parts.push_back({(unsigned)(p-off),nullptr}); any=true; p++; continue; }
    const Cell& c=j->second; if(c.v.k==Val::Undef){ parts.push_back({(unsigned)(p-off),nullptr}); any=true; p++; continue; } if(c.v.k!=Val::Int){ throw Unsupported{"partial read of pointer/real at "+where()}; }
    allUndef=false; if(p==j->first && p+c.size<=off+sz){ parts.push_back({(unsigned)(p-off),canon(raw(c.v),c.v.bits,false)}); p+=c.size; } else { parts.push_back({(unsigned)(p-off),byteOf(c.v,p-j->first)}); p++; } }
  if(allUndef){ Val v; v.k=Val::Undef; return v; }
  for(auto&q:parts){ Ex x=q.second; if(!x) x=P.varRange("undefbyte!"+std::to_string(freshN++),0,255); acc=P.add(acc,P.scale(x,mpq_class(pow2(8*q.first)))); }
  (void)any;
  Val iv=Val::I(sz*8,acc); return castTo(iv,t); }
struct Access { Obj* o; uint64_t off; };
static std::pair<int,uint64_t> access(const Val& p0, uint64_t sz, bool write){
  Val p=p0; if(p.k==Val::Undef){ safety(P.F,"undefined-pointer"); }
  if(p.k!=Val::Ptr) throw Unsupported{"access through non-pointer at "+where()};
  if(p.obj==0){ safety(P.F,"null-dereference"); throw PathEnd{"violated"}; }
  Obj* o=rd(p.obj); if(!o){ safety(P.F,"dangling-pointer"); throw PathEnd{"violated"}; }
  if(o->freed){ safety(P.F,"use-after-free"); throw PathEnd{"violated"}; }
  Ex off=canon(p.e,64,true);
  if(!ExprPool::isc(off)){
    safety(P.and_({P.le(P.ic(0),off),P.le(P.add(off,P.ic((long)sz)),P.ic((long)o->size))}),"out-of-bounds");
    mpz_class v=concretize(off); return {p.obj,v.get_ui()}; }
  mpz_class v=off->k.get_num(); if(v<0||v+(long)sz>(long)o->size){ safety(P.F,"out-of-bounds"); throw PathEnd{"violated"}; }
  safetyOk++;
  return {p.obj,v.get_ui()}; }
// an integer read at a position given by a visible case distinction: the same case distinction over the entries
static bool loadTable(const Val& p, Type* t, Val& out){
  if(p.k!=Val::Ptr||p.obj==0||ExprPool::isc(p.e)||!t->isIntegerTy()||t->isIntegerTy(1)) return false;
  Obj* o=rd(p.obj); if(!o||o->freed) return false;
  Ex off=canon(p.e,64,true); if(ExprPool::isc(off)) return false;
  std::set<mpz_class> vs; if(!P.values(off,vs)) return false;
  unsigned sz=DL->getTypeStoreSize(t); std::vector<std::pair<mpz_class,Ex>> cs; unsigned bits=0;
  for(auto&v:vs){ bool ok= v>=0&&v+sz<=(long)o->size; if(ok){ auto it=o->cells.find(v.get_ui()); ok= it!=o->cells.end()&&it->second.size==sz&&it->second.v.k==Val::Int; if(ok){ bits=it->second.v.bits; cs.push_back({v,canon(raw(it->second.v),it->second.v.bits,false)}); } }
    if(!ok&&!proves(P.not_(P.eq(off,P.ic(v))),tmoBranch)) return false; }
  if(cs.empty()||bits!=sz*8) return false;
  safetyOk++;
  Ex r=cs.back().second; for(size_t i=0;i+1<cs.size();++i) r=P.ite(P.eq(off,P.ic(cs[i].first)),cs[i].second,r);
  out=castTo(Val::I(bits,r),t); return true; }
static void storeVal(int obj, uint64_t off, const Val& v, Type* t){
  if(auto*s=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();++i) storeVal(obj,off+l->getElementOffset(i), v.k==Val::Undef? v : (*v.agg)[i],s->getElementType(i)); return; }
  if(auto*s=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(s->getElementType()); for(unsigned i=0;i<s->getNumElements();++i) storeVal(obj,off+i*es, v.k==Val::Undef? v : (*v.agg)[i],s->getElementType()); return; }
  if(auto*s=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL->getTypeAllocSize(s->getElementType()); for(unsigned i=0;i<s->getNumElements();++i) storeVal(obj,off+i*es, v.k==Val::Undef? v : (*v.agg)[i],s->getElementType()); return; }
  unsigned sz=DL->getTypeStoreSize(t); if(v.k==Val::Mix){ Obj*o=wr(obj); eraseRange(*o,off,sz); for(auto&q:v.mix->p) o->cells[off+q.first]=q.second; return; } Val w=v; if(w.k==Val::Int&&w.bits==1) w=Val::I(8,boolInt(w)); storeAt(*wr(obj),off,w,sz); }
static void copyMem(const Val& d, const Val& s, uint64_t n){
  if(n==0) return; auto a=access(s,n,false); auto b=access(d,n,true);
  std::vector<std::pair<uint64_t,Cell>> tmp; { Obj*o=rd(a.first); 
    auto it=o->cells.upper_bound(a.second); if(it!=o->cells.begin()){ --it; if(it->first+it->second.size<=a.second) ++it; }
    for(;it!=o->cells.end()&&it->first<a.second+n;++it){ if(it->first>=a.second&&it->first+it->second.size<=a.second+n) tmp.push_back({it->first-a.second,it->second}); else { const Cell&c=it->second; if(c.v.k==Val::Undef) continue; if(c.v.k!=Val::Int) throw Unsupported{"partial copy"}; for(unsigned i=0;i<c.size;++i){ uint64_t q=it->first+i; if(q>=a.second&&q<a.second+n) tmp.push_back({q-a.second,Cell{Val::I(8,byteOf(c.v,i)),1}}); } } } }
  Obj*o=wr(b.first); eraseRange(*o,b.second,n); for(auto&t:tmp) o->cells[b.second+t.first]=t.second; }

// ---- function preparation
static int locOf(Instruction* I){ const DebugLoc& d=I->getDebugLoc(); if(!d) return -1; 
  // attribute to the location itself (innermost inlined scope)
  DILocation* L=d.get(); std::string f=L->getFilename().str(); std::string dir=L->getDirectory().str(); if(!f.empty()&&f[0]!='/') f=dir+"/"+f; std::string fn; if(auto*sp=L->getScope()->getSubprogram()) fn=sp->getName().str();
  auto key=std::make_tuple(f,L->getLine(),fn); auto it=locId.find(key); if(it!=locId.end()) return it->second; int id=locs.size(); locs.push_back(Loc{f,L->getLine(),fn}); locId[key]=id; return id; }
static FnI* getFn(Function* F){
  auto it=fns.find(F); if(it!=fns.end()) return it->second.get();
  auto f=std::make_unique<FnI>(); f->F=F; for(auto&a:F->args()) f->slots[&a]=f->nslots++;
  for(auto&b:*F){ f->bbi[&b]=f->bbp.size(); f->bbp.push_back(&b); for(auto&i:b) if(!i.getType()->isVoidTy()) f->slots[&i]=f->nslots++; }
  for(auto*b:f->bbp){ std::vector<InstI> v; for(auto&i:*const_cast<BasicBlock*>(b)){ if(isa<DbgInfoIntrinsic>(&i)) continue; InstI x; x.I=&i; x.loc=locOf(&i); auto s=f->slots.find(&i); if(s!=f->slots.end()) x.dst=s->second;
      for(auto&o:i.operands()){ Operand p; Value*w=o.get(); auto q=f->slots.find(w); if(q!=f->slots.end()) p.slot=q->second; else if(auto*c=dyn_cast<Constant>(w)){ try { p.c=constVal(c); } catch(Unsupported&u){ p.c.k=Val::None; } } x.ops.push_back(p); }
      v.push_back(std::move(x)); } f->bbs.push_back(std::move(v)); }
  auto*r=f.get(); fns[F]=std::move(f); return r; }

static const Val& opnd(const Operand& o){ if(o.slot>=0) return cur->st.back().regs[o.slot]; return o.c; }
static Val get(const InstI& x, unsigned i){ return opnd(x.ops[i]); }
static Val getI(const InstI& x, unsigned i){ Val v=flat(opnd(x.ops[i])); if(v.k==Val::Undef&&x.I->isBitwiseLogicOp()&&x.I->getType()->isIntegerTy()&&x.I->getType()->getIntegerBitWidth()>1){ // uninitialised word: arbitrary bits
    unsigned w=x.I->getType()->getIntegerBitWidth(); std::vector<Ex> b; for(unsigned k=0;k<w;++k) b.push_back(P.var(Sort::B,"undefbit!"+std::to_string(freshN++))); return Val::I(w,P.fromBits(b)); }
  if(v.k==Val::Undef) return freshOf(x.I->getOperand(i)->getType(),"undef"); return v; }
static void set(const InstI& x, Val v){ if(x.dst>=0) cur->st.back().regs[x.dst]=std::move(v); }
static void gotoBB(int bb){
  Frame& f=cur->st.back(); int prev=f.bb; f.prev=prev; 
  auto& ins=f.f->bbs[bb]; std::vector<std::pair<int,Val>> upd; size_t k=0; const BasicBlock* pb=f.f->bbp[prev];
  for(;k<ins.size();++k){ auto*ph=dyn_cast<PHINode>(ins[k].I); if(!ph) break; int idx=ph->getBasicBlockIndex(pb); if(idx<0) throw Unsupported{"phi"}; upd.push_back({ins[k].dst,opnd(ins[k].ops[idx])}); }
  for(auto&u:upd) f.regs[u.first]=std::move(u.second);
  f.bb=bb; f.ip=k; }
static void popFrame(){ Frame& f=cur->st.back(); for(int a:f.allocas) { cur->mem.erase(a); } cur->st.pop_back(); }
static void afterCall(Val r){ // current frame's instruction is a call/invoke that produced r
  Frame& f=cur->st.back(); InstI& x=f.f->bbs[f.bb][f.ip]; if(x.dst>=0) f.regs[x.dst]=std::move(r); if(auto*inv=dyn_cast<InvokeInst>(x.I)) gotoBB(f.f->bbi[inv->getNormalDest()]); else f.ip++; }
static void pushCall(Function* F, std::vector<Val> args, unsigned nfixed){
  if(cur->st.size()>2000) throw Unsupported{"call depth"};
  FnI* fi=getFn(F); Frame n; n.f=fi; n.regs.resize(fi->nslots); for(unsigned i=0;i<F->arg_size()&&i<args.size();++i) n.regs[i]=args[i];
  // byval arguments: copy
  for(unsigned i=0;i<F->arg_size();++i){ Argument*a=F->getArg(i); if(a->hasByValAttr()){ uint64_t sz=DL->getTypeAllocSize(a->getParamByValType()); int o=newObj(sz,1,"byval"); n.allocas.push_back(o); copyMem(Val::Pt(o,P.ic(0)),args[i],sz); n.regs[i]=Val::Pt(o,P.ic(0)); } }
  cur->st.push_back(std::move(n)); auto&f=cur->st.back(); f.bb=0; f.ip=0; }
static std::string cstr(const Val& p){ std::string s; if(p.k!=Val::Ptr||!p.obj) return s; Obj*o=rd(p.obj); uint64_t off=p.e->k.get_num().get_ui(); for(;off<o->size;++off){ auto it=o->cells.find(off); if(it==o->cells.end()||it->second.size!=1||!ExprPool::isc(it->second.v.e)) break; long c=it->second.v.e->k.get_num().get_si(); if(c==0) break; s.push_back((char)c);} return s; }

// ---- exceptions
static std::string tiName(GlobalVariable* g){ return g? demangle(g->getName().str()) : "?"; }
static bool tiMatches(GlobalVariable* thrown, const GlobalVariable* h){
  if(!thrown) return false; if(thrown==h) return true; if(!thrown->hasInitializer()) { // external typeinfo (std::…): match std::exception for anything named std::
    std::string n=thrown->getName().str(); return h->getName()=="_ZTISt9exception" && n.rfind("_ZTISt",0)==0; }
  if(auto*cs=dyn_cast<ConstantStruct>(thrown->getInitializer())){ for(unsigned i=2;i<cs->getNumOperands();++i) if(auto*b=dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if(b->getName().starts_with("_ZTI")&&tiMatches(b,h)) return true; }
  return false; }
static void unwind(){
  for(;;){
    if(cur->st.empty()){ }
    Frame& f=cur->st.back(); InstI& x=f.f->bbs[f.bb][f.ip];
    if(auto*inv=dyn_cast<InvokeInst>(x.I)){
      BasicBlock* ub=inv->getUnwindDest(); LandingPadInst* lp=ub->getLandingPadInst(); long sel=0; bool enter=lp->isCleanup();
      for(unsigned i=0;i<lp->getNumClauses();++i) if(lp->isCatch(i)){ Constant*c=lp->getClause(i)->stripPointerCasts(); if(isa<ConstantPointerNull>(c)){ sel=1<<28; enter=true; break; } auto*g=dyn_cast<GlobalVariable>(c); if(g&&tiMatches(cur->exn.ti,g)){ sel=globalId(g); enter=true; break; } } else { enter=true; sel=-1; break; }
      if(enter){ gotoBB(f.f->bbi[ub]); Frame& g=cur->st.back(); InstI& l=g.f->bbs[g.bb][g.ip]; Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); v.agg->push_back(cur->exn.ptr); v.agg->push_back(Val::C(32,sel)); if(l.dst>=0) g.regs[l.dst]=v; g.ip++; return; } }
    if(cur->st.size()==1){ oblige(P.F,"no-uncaught-exception:"+tiName(cur->exn.ti)+cur->exn.tn+" raised"); throw PathEnd{"uncaught"}; }
    popFrame(); } }
static void throwNamed(const std::string& n, const char* tiname=nullptr){ cur->exn.ptr=Val::Pt(newObj(64,3,"exn"),P.ic(0)); cur->exn.ti= tiname? M->getGlobalVariable(tiname):nullptr; cur->exn.tn=n; if(tiname&&!cur->exn.ti){ cur->exn.ti=new GlobalVariable(*M,Type::getInt8Ty(M->getContext()),true,GlobalValue::ExternalLinkage,nullptr,tiname); } unwind(); }

// ---- symbolic differentiation
static std::unordered_map<Ex,Ex> dmemo; static Ex dvar;
static Ex diff(Ex e){
  auto it=dmemo.find(e); if(it!=dmemo.end()) return it->second; Ex r=P.rc(0);
  switch(e->op){ case Op::Const: break; case Op::Var: r=P.rc(e==dvar?1:0); break;
    case Op::Sum: { ExprPool::Lin l; for(size_t i=0;i<e->a.size();++i) P.addTo(l,diff(e->a[i]),e->c[i]); r=P.fromLin(Sort::R,l); break; }
    case Op::Prod: for(size_t i=0;i<e->a.size();++i){ Ex t=diff(e->a[i]); if(ExprPool::isc(t)&&t->k==0) continue; for(size_t j=0;j<e->a.size();++j) if(j!=i) t=P.mul(t,e->a[j]); r=P.add(r,t);} break;
    case Op::RDiv: { Ex x=e->a[0],y=e->a[1],dx=diff(x),dy=diff(y); r=P.rdiv(P.sub(P.mul(dx,y),P.mul(x,dy)),P.mul(y,y)); break; }
    case Op::Ite: r=P.ite(e->a[0],diff(e->a[1]),diff(e->a[2])); break;
    case Op::ToReal: break;
    case Op::UF: if(e->a.size()==1&&e->a[0]->s==Sort::R){ Ex x=e->a[0],dx=diff(x); Ex o; if(ExprPool::isc(dx)&&dx->k==0) break; if(e->name=="sin") o=P.uf(Sort::R,"cos",{x}); else if(e->name=="cos") o=P.neg(P.uf(Sort::R,"sin",{x})); else if(e->name=="exp") o=e; else if(e->name=="sqrt") o=P.rdiv(P.rc(mpq_class(1,2)),e); else o=P.uf(Sort::R,"D1."+e->name,{x}); r=P.mul(o,dx); break; }
      else { for(size_t i=0;i<e->a.size();++i) if(e->a[i]->s==Sort::R){ Ex dx=diff(e->a[i]); if(ExprPool::isc(dx)&&dx->k==0) continue; r=P.add(r,P.mul(P.uf(Sort::R,"D"+std::to_string(i)+"."+e->name,e->a),dx)); } break; }
    default: throw Unsupported{"diff"}; }
  return dmemo[e]=r; }

// ---- external functions
static Val floorVal(Ex x){ return Val::R(P.toReal(P.floor_(x))); }
// powers of positive reals are positive (the solver knows the axioms of square roots)
static Ex posRoot(const char* f, std::vector<Ex> as){ Ex x=as[0]; Ex r=P.uf(Sort::R,f,std::move(as)); if(r->name!="sqrt") addPC(P.or_({P.not_(P.lt(P.rc(0),x)),P.lt(P.rc(0),r)})); return r; }
static Ex powi(Ex b, long n){ if(n<0) return P.rdiv(P.rc(1),powi(b,-n)); Ex r=P.rc(1); for(long i=0;i<n;++i) r=P.mul(r,b); return r; }
static Ex rabs(Ex x){ return P.ite(P.le(P.rc(0),x),x,P.neg(x)); }
static bool isNonzeroProvable(Ex x){ return proves(P.not_(P.eq0(x)),tmoBranch); }
template<class Fn> static Ex tabulate(Ex e, unsigned n, Fn f){ std::set<mpz_class> vs; if(!P.values(e,vs)) return nullptr; Ex r=nullptr; for(auto it=vs.rbegin();it!=vs.rend();++it){ if(*it<0||*it>=n) return nullptr; Ex v=f(*it); r= r? P.ite(P.eq(e,P.ic(*it)),v,r) : v; } return r? P.wordOf(r) : r; }
static uint64_t cu(const Val& v, int tag=0){ return concretize(canon(raw(v),v.bits,false),tag).get_ui(); }

static bool external(const InstI& x, Function* F, const std::vector<Val>& a){
  StringRef n=F->getName(); auto done=[&](Val v){ afterCall(std::move(v)); return true; };
  auto dbl=[&](unsigned i){ if(a[i].k==Val::Real) return a[i].e; if(a[i].k==Val::Undef) return freshOf(Type::getDoubleTy(F->getContext()),"undef").e; throw Unsupported{"real arg"}; };
  if(n.starts_with("vp_")&&F->isDeclaration()){
    auto nm=[&](unsigned i){ return cstr(a[i]); };
    auto uniq=[&](const std::string& s){ int k=cur->ndCount[s]++; return k? s+"#"+std::to_string(k) : s; };
    if(n=="vp_u64"||n=="vp_i64"){ std::string s=uniq(nm(0)); bool sg=n=="vp_i64"; Ex lo=canon(a[1].e,64,sg),hi=canon(a[2].e,64,sg); Ex v; if(ExprPool::isc(lo)&&ExprPool::isc(hi)){ if(lo->k>hi->k) throw PathEnd{"infeasible"}; v=P.varRange(s,lo->k.get_num(),hi->k.get_num()); } else { v=P.varRange(s,lo->hl?lo->lo:(sg?mpz_class(-pow2(63)):mpz_class(0)),hi->hh?hi->hi:mpz_class(pow2(63)-1)); addPC(P.le(lo,v)); addPC(P.le(v,hi)); if(S->sat(cur->pc,P.le(lo,hi),tmoBranch)==Res::Unsat) throw PathEnd{"infeasible"}; } cur->nd.push_back({sg?'i':'u',s,v}); return done(Val::I(64,v)); }
    if(n=="vp_real"){ std::string s=uniq(nm(0)); Ex v=P.var(Sort::R,s); cur->nd.push_back({'r',s,v}); return done(Val::R(v)); }
    if(n=="vp_bool"){ std::string s=uniq(nm(0)); Ex v=P.var(Sort::B,s); cur->nd.push_back({'b',s,v}); return done(Val::I(1,v)); }
    if(n=="vp_select"){ Ex c=a[0].e; if(a[0].bits!=1) c=P.not_(P.eq0(raw(a[0]))); return done(Val::R(P.ite(c,a[1].e,a[2].e))); }
    if(n=="vp_split"){ mpz_class v=concretize(canon(raw(a[0]),64,false)); return done(Val::I(64,P.ic(v))); }
    if(n=="vp_uf"){ std::vector<Ex> as; for(int i=3;i<7;++i) as.push_back(canon(raw(a[i]),64,false)); Ex lo=canon(a[1].e,64,false),hi=canon(a[2].e,64,false); Ex v; if(ExprPool::isc(lo)&&ExprPool::isc(hi)) v=P.ufRange(nm(0),as,lo->k.get_num(),hi->k.get_num()); else { v=P.ufRange(nm(0),as,lo->hl?lo->lo:mpz_class(0),hi->hh?hi->hi:mpz_class(pow2(63)-1)); addPC(P.le(lo,v)); addPC(P.le(v,hi)); } cur->ufs.push_back({nm(0),as,v}); return done(Val::I(64,v)); }
    if(n=="vp_ufi"){ std::vector<Ex> as; for(int i=1;i<5;++i) as.push_back(canon(raw(a[i]),64,false)); Ex v=P.uf(Sort::R,nm(0),as); cur->ufs.push_back({nm(0),as,v}); return done(Val::R(v)); }
    if(n=="vp_ufr"){ std::vector<Ex> as; as.push_back(canon(raw(a[1]),64,false)); for(int i=2;i<5;++i) as.push_back(dbl(i)); Ex v=P.uf(Sort::R,nm(0),as); cur->ufs.push_back({nm(0),as,v}); return done(Val::R(v)); }
    if(n=="vp_assume"){ Ex c=a[0].e; int k=known(c); if(k==0) throw PathEnd{"assume"}; if(k<0){ if(S->sat(cur->pc,c,tmoBranch)==Res::Unsat) throw PathEnd{"assume"}; addPC(c);} return done(Val()); }
    if(n=="vp_assert"){ if(a[0].k==Val::Undef){ oblige(P.var(Sort::B,"undef!"+std::to_string(freshN++)),nm(1)); } else oblige(a[0].e,nm(1)); return done(Val()); }
    if(n=="vp_assert_eq"){ obligeEq(dbl(0),dbl(1),nm(2)); return done(Val()); }
    if(n=="vp_cover"){ std::string s=nm(0); if(!covers[s]){ Model m; if(S->sat(cur->pc,P.T,tmoAssert,&m,true)==Res::Sat) covers[s]=true; } return done(Val()); }
    if(n=="vp_diff"){ Ex v=dbl(1); if(v->op!=Op::Var) throw Unsupported{"vp_diff variable"}; dmemo.clear(); dvar=v; Ex r=diff(dbl(0)); cur->nd.push_back({'d',"diff",r}); return done(Val::R(r)); }
    if(n=="vp_live_heap") return done(Val::C(64,cur->heapLive));
    if(n=="vp_trace"){ if(verbose){ Ex e=raw(a[1]); std::cerr<<"trace "<<nm(0)<<" = "<<(ExprPool::isc(e)?e->k.get_str():S->z(e).to_string())<<"\n"; } return done(Val()); }
    throw Unsupported{"unknown "+n.str()};
  }
  if(n=="_Znwm"||n=="_Znam"||n=="malloc"||n=="_ZnwmRKSt9nothrow_t"||n=="_ZnamRKSt9nothrow_t"||n=="_ZnwmSt11align_val_t"){ uint64_t sz=cu(a[0]); if(sz>(1ull<<34)){ throwNamed("bad_alloc","_ZTISt9bad_alloc"); return true; } int o=newObj(sz,2,"heap"); cur->heapLive++; return done(Val::Pt(o,P.ic(0))); }
  if(n=="calloc"){ uint64_t sz=cu(a[0],0)*cu(a[1],1); int o=newObj(sz,2,"heap"); cur->heapLive++; Obj*p=wr(o); for(uint64_t i=0;i<sz;i++) p->cells[i]=Cell{Val::C(8,0),1}; return done(Val::Pt(o,P.ic(0))); }
  if(n.starts_with("_ZdlPv")||n.starts_with("_ZdaPv")||n=="free"){ const Val&p=a[0]; if(p.k!=Val::Ptr) throw Unsupported{"free"}; if(p.obj==0&&p.e==P.ic(0)) return done(Val()); Obj*o=rd(p.obj); if(!o||o->kind!=2||o->freed||!(ExprPool::isc(p.e)&&p.e->k==0)){ safety(P.F, o&&o->freed?"double-free":"invalid-free"); throw PathEnd{"violated"}; } Obj*w=wr(p.obj); w->freed=true; w->cells.clear(); cur->heapLive--; return done(Val()); }
  if(n=="__cxa_allocate_exception") { uint64_t sz=cu(a[0]); return done(Val::Pt(newObj(sz,3,"exn"),P.ic(0))); }
  if(n=="__cxa_free_exception") return done(Val());
  if(n=="__cxa_throw"){ cur->exn.ptr=a[0]; cur->exn.tn=""; cur->exn.ti=nullptr; if(a[1].obj>0&&a[1].obj<=(int)gobj.size()) cur->exn.ti=const_cast<GlobalVariable*>(dyn_cast<GlobalVariable>(gobj[a[1].obj-1])); unwind(); return true; }
  if(n=="__cxa_begin_catch"){ cur->caught.push_back(cur->exn); return done(a[0]); }
  if(n=="__cxa_get_exception_ptr") return done(a[0]);
  if(n=="__cxa_end_catch"){ if(!cur->caught.empty()) cur->caught.pop_back(); return done(Val()); }
  if(n=="__cxa_rethrow"){ if(cur->caught.empty()) throw Unsupported{"rethrow"}; cur->exn=cur->caught.back(); cur->caught.pop_back(); unwind(); return true; }
  if(n=="_ZSt9terminatev"||n=="__clang_call_terminate"||n=="abort"||n=="exit"||n=="_ZSt13__throw_terminate"){ safety(P.F,"terminate"); throw PathEnd{"violated"}; }
  if(n=="__assert_fail"){ std::string e=cstr(a[0]); oblige(P.F,"assert("+e+")"); throw PathEnd{"violated"}; }
  if(n.starts_with("_ZSt21__glibcxx_assert_fail")){ oblige(P.F,"glibcxx-assert("+cstr(a[3])+")"); throw PathEnd{"violated"}; }
  if(n=="__cxa_pure_virtual"){ safety(P.F,"pure-virtual-call"); throw PathEnd{"violated"}; }
  if(n.starts_with("_ZSt")&&n.contains("__throw_")){ std::string d=n.str(); const char* ti="_ZTISt9exception"; if(n.contains("out_of_range")) ti="_ZTISt12out_of_range"; else if(n.contains("length_error")) ti="_ZTISt12length_error"; else if(n.contains("bad_alloc")||n.contains("bad_array")) ti="_ZTISt9bad_alloc"; else if(n.contains("bad_function_call")) ti="_ZTISt17bad_function_call"; else if(n.contains("logic_error")) ti="_ZTISt11logic_error"; throwNamed(demangle(d),ti); return true; }
  if(n=="__cxa_guard_acquire"){ auto p=access(a[0],1,false); Obj*o=rd(p.first); auto it=o->cells.find(p.second); bool ini= it!=o->cells.end() && it->second.v.k==Val::Int && ExprPool::isc(it->second.v.e) && it->second.v.e->k!=0; return done(Val::C(32,ini?0:1)); }
  if(n=="__cxa_guard_release"){ auto p=access(a[0],8,true); storeAt(*wr(p.first),p.second,Val::C(64,1),8); return done(Val()); }
  if(n=="__cxa_guard_abort") return done(Val());
  if(n=="__cxa_atexit"||n=="atexit") return done(Val::C(32,0));
  if(n=="strlen"){ return done(Val::C(64,cstr(a[0]).size())); }
  if(n=="memcpy"||n=="memmove"){ copyMem(a[0],a[1],cu(a[2])); return done(a[0]); }
  if(n=="memset"){ uint64_t c=cu(a[2]); if(c){ auto p=access(a[0],c,true); Obj*o=wr(p.first); eraseRange(*o,p.second,c); for(uint64_t i=0;i<c;++i) o->cells[p.second+i]=Cell{Val::I(8,raw(a[1])),1}; } return done(a[0]); }
  if(n=="memcmp"||n=="bcmp"||n=="strcmp"){ uint64_t c= n=="strcmp"? std::max(cstr(a[0]).size(),cstr(a[1]).size())+1 : cu(a[2]); if(n=="strcmp"){ int r=cstr(a[0]).compare(cstr(a[1])); return done(Val::C(32,r)); } int r=0; if(c){ auto p=access(a[0],c,false), q=access(a[1],c,false); for(uint64_t i=0;i<c;++i){ { auto*oa=rd(p.first);auto*ob=rd(q.first); auto ia=oa->cells.find(p.second+i), ib=ob->cells.find(q.second+i); if(ia!=oa->cells.end()&&ib!=ob->cells.end()&&ia->second.size==ib->second.size&&ia->second.size>1&&i+ia->second.size<=c&&ia->second.v.k==Val::Int&&ib->second.v.k==Val::Int){ unsigned sz=ia->second.size; Ex ea=canon(raw(ia->second.v),sz*8,false), eb=canon(raw(ib->second.v),sz*8,false); if(!decide(P.eq(ea,eb))){ Ex fv=P.var(Sort::B,"memcmp!"+std::to_string(freshN++)); return done(Val::I(32,P.ite(fv,P.ic(1),P.ic(-1)))); } i+=sz-1; continue; } } Val u=loadAt(rd(p.first),p.second+i,Type::getInt8Ty(F->getContext())), v=loadAt(rd(q.first),q.second+i,Type::getInt8Ty(F->getContext())); if(u.k==Val::Undef) u=Val::C(8,0); if(v.k==Val::Undef) v=Val::C(8,0); Ex cu_=canon(u.e,8,false), cv=canon(v.e,8,false); if(!decide(P.eq(cu_,cv))){ r=decide(P.lt(cu_,cv))?-1:1; break; } } } return done(Val::C(32,r)); }
  // math
  if(n=="sqrt"||n=="sqrtf"){ Ex v=dbl(0); if(ExprPool::isc(v)&&v->k>=0){ mpz_class p=v->k.get_num(),q=v->k.get_den(); if(mpz_perfect_square_p(p.get_mpz_t())&&mpz_perfect_square_p(q.get_mpz_t())) return done(Val::R(P.rc(mpq_class(sqrt(p),sqrt(q))))); } safety(P.le(P.rc(0),v),"sqrt-negative"); return done(Val::R(posRoot("sqrt",{v}))); }
  if(n=="sin"||n=="cos"||n=="exp"||n=="tan"||n=="log"||n=="atan"||n=="acos"||n=="asin"||n=="sinh"||n=="cosh"||n=="tanh"){ Ex v=dbl(0); if(ExprPool::isc(v)&&v->k==0&&(n=="sin"||n=="tan")) return done(Val::R(P.rc(0))); if(ExprPool::isc(v)&&v->k==0&&(n=="cos"||n=="exp")) return done(Val::R(P.rc(1))); return done(Val::R(P.uf(Sort::R,n.str(),{v}))); }
  if(n=="pow"){ Ex e=dbl(1); if(ExprPool::isc(e)&&e->k.get_den()==1&&abs(e->k)<=64) return done(Val::R(powi(dbl(0),e->k.get_num().get_si()))); if(ExprPool::isc(e)&&e->k==mpq_class(1,2)) { safety(P.le(P.rc(0),dbl(0)),"sqrt-negative"); return done(Val::R(posRoot("sqrt",{dbl(0)}))); } return done(Val::R(posRoot("pow",{dbl(0),e}))); }
  if(n=="fabs"||n=="fabsf") return done(Val::R(rabs(dbl(0))));
  if(n=="floor") return done(floorVal(dbl(0)));
  if(n=="ceil") return done(Val::R(P.neg(P.toReal(P.floor_(P.neg(dbl(0)))))));
  if(n=="fmax"||n=="fmin"){ Ex p=dbl(0),q=dbl(1); Ex c=P.le(p,q); return done(Val::R(n=="fmax"?P.ite(c,q,p):P.ite(c,p,q))); }
  if(n=="lround"||n=="lrint"||n=="llround"){ return done(Val::I(64,P.floor_(P.add(dbl(0),P.rc(mpq_class(1,2)))))); }
  if(n=="round"||n=="rint"||n=="nearbyint"){ return done(Val::R(P.toReal(P.floor_(P.add(dbl(0),P.rc(mpq_class(1,2))))))); }
  if(n.starts_with("_ZNSt8ios_base4Init")) return done(Val());
  if(n=="__dynamic_cast"){ // (src, srcType, dstType, hint): exact or unique-base-at-offset-0 hierarchies
    if(a[0].obj==0) return done(Val::Null()); auto p=access(a[0],8,false); Val vt=loadAt(rd(p.first),p.second,PointerType::get(F->getContext(),0)); auto q=access(Val::Pt(vt.obj,P.sub(vt.e,P.ic(8))),8,false); Val ti=loadAt(rd(q.first),q.second,PointerType::get(F->getContext(),0)); auto r=access(Val::Pt(vt.obj,P.sub(vt.e,P.ic(16))),8,false); Val top=loadAt(rd(r.first),r.second,Type::getInt64Ty(F->getContext())); auto*g=const_cast<GlobalVariable*>(dyn_cast<GlobalVariable>(gobj[ti.obj-1])); auto*d=dyn_cast<GlobalVariable>(gobj[a[2].obj-1]); if(tiMatches(g,d)) return done(Val::Pt(a[0].obj,P.add(a[0].e,canon(top.e,64,true)))); return done(Val::Null()); }
  return false; }

// 0/0 is the one non-finite value that is modelled (as a marker that arithmetic propagates)
static bool isNaN(Ex e){ static Ex n=P.var(Sort::R,"#nan"); return e==n; }
static Ex nanOr(Ex a, Ex b, Ex r){ return isNaN(a)?a:isNaN(b)?b:r; }
static bool intrinsic(const InstI& x, IntrinsicInst* I, const std::vector<Val>& a){
  auto done=[&](Val v){ afterCall(std::move(v)); return true; }; unsigned b= I->getType()->isIntegerTy()? I->getType()->getIntegerBitWidth():0;
  auto gi=[&](unsigned i){ if(a[i].k==Val::Undef) return freshOf(I->getArgOperand(i)->getType(),"undef"); return a[i]; };
  switch(I->getIntrinsicID()){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return done(Val());
    case Intrinsic::assume: return done(Val());
    case Intrinsic::stacksave: return done(Val::Null());
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return done(a[0]);
    case Intrinsic::expect: case Intrinsic::expect_with_probability: return done(a[0]);
    case Intrinsic::is_constant: return done(Val::B(false));
    case Intrinsic::objectsize: return done(Val::C(64,-1));
    case Intrinsic::trap: safety(P.F,"trap"); throw PathEnd{"violated"};
    case Intrinsic::eh_typeid_for: return done(Val::C(32,a[0].obj));
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(a[0],a[1],cu(gi(2))); return done(Val());
    case Intrinsic::memset: { uint64_t c=cu(gi(2)); if(c){ auto p=access(a[0],c,true); Obj*o=wr(p.first); eraseRange(*o,p.second,c); Ex v=raw(a[1]); uint64_t i=0; if(ExprPool::isc(v)&&v->k==0){ for(;i+8<=c;i+=8) o->cells[p.second+i]=Cell{Val::C(64,0),8}; } for(;i<c;++i) o->cells[p.second+i]=Cell{Val::I(8,v),1}; } return done(Val()); }
    case Intrinsic::fabs: return done(Val::R(rabs(gi(0).e)));
    case Intrinsic::fmuladd: case Intrinsic::fma: return done(Val::R(P.add(P.mul(gi(0).e,gi(1).e),gi(2).e)));
    case Intrinsic::floor: return done(floorVal(gi(0).e));
    case Intrinsic::ceil: return done(Val::R(P.neg(P.toReal(P.floor_(P.neg(gi(0).e))))));
    case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: return done(Val::R(P.toReal(P.floor_(P.add(gi(0).e,P.rc(mpq_class(1,2)))))));
    case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: { Ex v=gi(0).e; auto id=I->getIntrinsicID(); if(ExprPool::isc(v)&&v->k==0){ if(id==Intrinsic::sin) return done(Val::R(P.rc(0))); if(id!=Intrinsic::log) return done(Val::R(P.rc(1))); } return done(Val::R(P.uf(Sort::R,id==Intrinsic::sin?"sin":id==Intrinsic::cos?"cos":id==Intrinsic::exp?"exp":"log",{v}))); }
    case Intrinsic::pow: { Ex e=gi(1).e; if(ExprPool::isc(e)&&e->k.get_den()==1&&abs(e->k)<=64) return done(Val::R(powi(gi(0).e,e->k.get_num().get_si()))); return done(Val::R(posRoot("pow",{gi(0).e,e}))); }
    case Intrinsic::powi: return done(Val::R(powi(gi(0).e,concretize(se(gi(1))).get_si())));
    case Intrinsic::sqrt: { Ex v=gi(0).e; safety(P.le(P.rc(0),v),"sqrt-negative"); if(ExprPool::isc(v)){ mpz_class p=v->k.get_num(),q=v->k.get_den(); if(mpz_perfect_square_p(p.get_mpz_t())&&mpz_perfect_square_p(q.get_mpz_t())) return done(Val::R(P.rc(mpq_class(sqrt(p),sqrt(q))))); } return done(Val::R(posRoot("sqrt",{v}))); }
    case Intrinsic::maxnum: case Intrinsic::minnum: { Ex p=gi(0).e,q=gi(1).e; Ex c=P.le(p,q); return done(Val::R(I->getIntrinsicID()==Intrinsic::maxnum?P.ite(c,q,p):P.ite(c,p,q))); }
    case Intrinsic::umax: case Intrinsic::umin: { Ex p=ue(gi(0)),q=ue(gi(1)); Ex c=P.le(p,q); return done(Val::I(b,I->getIntrinsicID()==Intrinsic::umax?P.ite(c,q,p):P.ite(c,p,q))); }
    case Intrinsic::smax: case Intrinsic::smin: { Ex p=se(gi(0)),q=se(gi(1)); Ex c=P.le(p,q); return done(Val::I(b,I->getIntrinsicID()==Intrinsic::smax?P.ite(c,q,p):P.ite(c,p,q))); }
    case Intrinsic::abs: { Ex p=se(gi(0)); return done(Val::I(b,P.ite(P.le(P.ic(0),p),p,P.neg(p)))); }
    case Intrinsic::usub_sat: { Ex p=ue(gi(0)),q=ue(gi(1)); return done(Val::I(b,P.ite(P.le(q,p),P.sub(p,q),P.ic(0)))); }
    case Intrinsic::ctpop: { mpz_class v=concretize(ue(gi(0))); return done(Val::C(b,mpz_popcount(v.get_mpz_t()))); }
    case Intrinsic::ctlz: { mpz_class v=concretize(ue(gi(0))); return done(Val::C(b, v==0? b : b-(long)mpz_sizeinbase(v.get_mpz_t(),2))); }
    case Intrinsic::cttz: { mpz_class v=concretize(ue(gi(0))); return done(Val::C(b, v==0? b : (long)mpz_scan1(v.get_mpz_t(),0))); }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      auto id=I->getIntrinsicID(); bool sg=id==Intrinsic::smul_with_overflow||id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow; Val u=gi(0),v=gi(1); unsigned w=u.bits; Ex p=sg?se(u):ue(u),q=sg?se(v):ue(v); Ex r= (id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow)?P.mul(p,q): (id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?P.add(p,q):P.sub(p,q); mpz_class L=sg?mpz_class(-pow2(w-1)):mpz_class(0),H=sg?mpz_class(pow2(w-1)-1):mpz_class(pow2(w)-1); Ex ov=P.or_({P.lt(r,P.ic(L)),P.lt(P.ic(H),r)}); Val g; g.k=Val::Agg; g.agg=std::make_shared<std::vector<Val>>(); g.agg->push_back(mkInt(w,r)); g.agg->push_back(Val::I(1,ov)); return done(g); }
    case Intrinsic::is_fpclass: { if(cu(gi(1))!=3) return false; return done(Val::I(1,P.boolc(isNaN(gi(0).e)))); }
    default: break; }
  return false; }

static Ex fcmpE(CmpInst::Predicate p, Ex a, Ex b){
  if(isNaN(a)||isNaN(b)) return CmpInst::isUnordered(p)||p==CmpInst::FCMP_TRUE ? P.T : P.F;
  switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return P.eq(a,b); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return P.not_(P.eq(a,b));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return P.lt(a,b); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return P.le(a,b);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return P.lt(b,a); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return P.le(b,a);
    case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: return P.T; default: return P.F; } }
static Ex icmpE(CmpInst::Predicate p, const Val& a, const Val& b){
  if(a.k==Val::Ptr||b.k==Val::Ptr){
    if(a.k==Val::Ptr&&b.k==Val::Ptr&&a.obj==b.obj){ Ex x=canon(a.e,64,true),y=canon(b.e,64,true); switch(p){ case CmpInst::ICMP_EQ: return P.eq(x,y); case CmpInst::ICMP_NE: return P.not_(P.eq(x,y)); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return P.lt(x,y); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return P.le(x,y); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return P.lt(y,x); default: return P.le(y,x);} }
    if(a.k==Val::Ptr&&b.k==Val::Ptr){ if(p==CmpInst::ICMP_EQ) return P.F; if(p==CmpInst::ICMP_NE) return P.T; bool l=a.obj<b.obj; return P.boolc((p==CmpInst::ICMP_ULT||p==CmpInst::ICMP_ULE)?l:!l); }
    Ex x=a.k==Val::Ptr?addrOf(a):ue(a), y=b.k==Val::Ptr?addrOf(b):ue(b); switch(p){ case CmpInst::ICMP_EQ: return P.eq(x,y); case CmpInst::ICMP_NE: return P.not_(P.eq(x,y)); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return P.lt(x,y); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return P.le(x,y); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return P.lt(y,x); default: return P.le(y,x);} }
  unsigned n=a.bits; if(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE){ Ex r; if(n==1) r=P.eq(a.e,b.e); else { Ex d=P.sub(a.e,b.e); if(d->hl&&d->hh&&d->lo>-pow2(n)&&d->hi<pow2(n)) r=P.eq0(d); else r=P.eq(ue(a),ue(b)); } return p==CmpInst::ICMP_EQ? r : P.not_(r); }
  bool sg=CmpInst::isSigned(p); Ex x=sg?se(a):ue(a),y=sg?se(b):ue(b);
  switch(p){ case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return P.lt(x,y); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return P.le(x,y); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return P.lt(y,x); default: return P.le(y,x); } }
static Val intBin(unsigned opc, Val a, Val b, Instruction* I){
  unsigned n=a.bits;
  if(a.k==Val::Ptr||b.k==Val::Ptr){
    if(opc==Instruction::Sub&&a.k==Val::Ptr&&b.k==Val::Ptr){ if(a.obj==b.obj) return mkInt(64,P.sub(a.e,b.e)); return mkInt(64,P.sub(addrOf(a),addrOf(b))); }
    if(opc==Instruction::Sub&&a.k==Val::Ptr) return [&]{ Val r=a; r.e=P.sub(a.e,b.e); return r; }();
    if(opc==Instruction::Add&&a.k==Val::Ptr&&b.k==Val::Int){ Val r=a; r.e=P.add(a.e,b.e); return r; }
    if(opc==Instruction::Add&&b.k==Val::Ptr&&a.k==Val::Int){ Val r=b; r.e=P.add(a.e,b.e); return r; }
    if(a.k==Val::Ptr) a=Val::I(64,addrOf(a)); if(b.k==Val::Ptr) b=Val::I(64,addrOf(b)); n=64; }
  if(a.k!=Val::Int||b.k!=Val::Int) throw Unsupported{"integer op on non-integer at "+where()};
  if(n==1){ switch(opc){ case Instruction::And: return Val::I(1,P.and_({a.e,b.e})); case Instruction::Or: return Val::I(1,P.or_({a.e,b.e})); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return Val::I(1,P.not_(P.eq(a.e,b.e))); case Instruction::Mul: return Val::I(1,P.and_({a.e,b.e})); default: throw Unsupported{"i1 op"}; } }
  switch(opc){
    case Instruction::Add: return mkInt(n,P.add(a.e,b.e)); case Instruction::Sub: return mkInt(n,P.sub(a.e,b.e));
    case Instruction::Mul: { Ex x=a.e,y=b.e; if(!ExprPool::isc(x)&&!ExprPool::isc(y)){ x=canon(x,n,false); y=canon(y,n,false);} return mkInt(n,P.mul(x,y)); }
    case Instruction::UDiv: case Instruction::URem: { Ex x=ue(a),y=ue(b); safety(P.not_(P.eq0(y)),"division-by-zero"); return Val::I(n,opc==Instruction::UDiv?P.idiv(x,y):P.imod(x,y)); }
    case Instruction::SDiv: case Instruction::SRem: { Ex x=se(a),y=se(b); safety(P.not_(P.eq0(y)),"division-by-zero"); bool nx=!decide(P.le(P.ic(0),x)), ny=!decide(P.le(P.ic(0),y)); Ex X=nx?P.neg(x):x,Y=ny?P.neg(y):y; if(opc==Instruction::SDiv){ Ex q=P.idiv(X,Y); return mkInt(n,nx!=ny?P.neg(q):q);} Ex r=P.imod(X,Y); return mkInt(n,nx?P.neg(r):r); }
    case Instruction::Shl: if(!ExprPool::isc(b.e)) if(Ex t=tabulate(ue(b),n,[&](const mpz_class& c){ return mkInt(n,P.scale(a.e,mpq_class(pow2(c.get_ui())))).e; })) return mkInt(n,t); { mpz_class c=concretize(ue(b)); if(c>=n){ safety(P.F,"shift"); } return mkInt(n,P.scale(a.e,mpq_class(pow2(c.get_ui())))); }
    case Instruction::LShr: if(!ExprPool::isc(b.e)) if(Ex t=tabulate(ue(b),n,[&](const mpz_class& c){ return P.idiv(ue(a),P.ic(pow2(c.get_ui()))); })) return Val::I(n,t); { mpz_class c=concretize(ue(b)); return Val::I(n,P.idiv(ue(a),P.ic(pow2(c.get_ui())))); }
    case Instruction::AShr: { mpz_class c=concretize(ue(b)); return Val::I(n,P.idiv(se(a),P.ic(pow2(c.get_ui())))); }
    case Instruction::And: { for(int k=0;k<2;++k){ if(ExprPool::isc(b.e)){ mpz_class c=canon(b.e,n,false)->k.get_num(); if(c==pow2(n)-1) return a; mpz_class c1=c+1; if(mpz_popcount(c1.get_mpz_t())==1) return Val::I(n,P.imod(a.e,P.ic(c1))); mpz_class inv=pow2(n)-c; /* ~(2^k-1) */ if(mpz_popcount(inv.get_mpz_t())==1){ return mkInt(n,P.sub(a.e,P.imod(a.e,P.ic(inv)))); } } std::swap(a,b);} return Val::I(n,P.bitop(Op::BAnd,ue(a),ue(b))); }
    case Instruction::Or: if(ExprPool::isc(a.e)&&a.e->k==0) return b; if(ExprPool::isc(b.e)&&b.e->k==0) return a; return Val::I(n,P.bitop(Op::BOr,ue(a),ue(b)));
    case Instruction::Xor: if(ExprPool::isc(b.e)&&canon(b.e,n,true)->k==-1) return mkInt(n,P.sub(P.ic(-1),a.e)); return Val::I(n,P.bitop(Op::BXor,ue(a),ue(b)));
  }
  throw Unsupported{"binop"}; }

static Val getI2(const InstI& x, unsigned i){ Val v=flat(opnd(x.ops[i])); if(v.k==Val::Undef&&!x.I->getOperand(i)->getType()->isPointerTy()) return freshOf(x.I->getOperand(i)->getType(),"undef"); if(v.k==Val::Undef) throw Unsupported{"comparison of undefined pointer"}; return v; }
static Ex canonRange(Ex r, unsigned b, bool sg){ mpz_class L=sg?mpz_class(-pow2(b-1)):mpz_class(0),H=sg?mpz_class(pow2(b-1)-1):mpz_class(pow2(b)-1); safety(P.and_({P.le(P.ic(L),r),P.le(r,P.ic(H))}),"float-to-int-range"); return r; }
static void step(){
  Frame& f=cur->st.back(); InstI& x=f.f->bbs[f.bb][f.ip]; Instruction* I=x.I; if(x.loc>=0) locs[x.loc].hit=true;
  switch(I->getOpcode()){
    case Instruction::Alloca: { auto*a=cast<AllocaInst>(I); uint64_t n=DL->getTypeAllocSize(a->getAllocatedType()); if(a->isArrayAllocation()) n*=cu(getI(x,0)); int o=newObj(n,1,a->getName().str()); cur->st.back().allocas.push_back(o); set(x,Val::Pt(o,P.ic(0))); break; }
    case Instruction::Load: { Val p=get(x,0); Val tv; if(loadTable(p,I->getType(),tv)){ set(x,tv); break; } auto a=access(p,DL->getTypeStoreSize(I->getType()),false); set(x,loadAt(rd(a.first),a.second,I->getType())); break; }
    case Instruction::Store: { Val v=get(x,0); Val p=get(x,1); Type*t=I->getOperand(0)->getType(); auto a=access(p,DL->getTypeStoreSize(t),true); storeVal(a.first,a.second,v,t); break; }
    case Instruction::GetElementPtr: { Val b=get(x,0); if(b.k==Val::Undef){ set(x,b); break; } if(b.k!=Val::Ptr) throw Unsupported{"gep base"}; Ex off=b.e; unsigned k=1; for(auto g=gep_type_begin(I),ge=gep_type_end(I);g!=ge;++g,++k){ Val idx=get(x,k); if(auto*s=g.getStructTypeOrNull()){ unsigned fi=idx.e->k.get_num().get_ui(); off=P.add(off,P.ic((long)DL->getStructLayout(s)->getElementOffset(fi))); } else { if(idx.k==Val::Undef) idx=getI(x,k); uint64_t es=DL->getTypeAllocSize(g.getIndexedType()); Ex ie= idx.k==Val::Ptr? addrOf(idx) : idx.bits==64? idx.e : se(idx); off=P.add(off,P.scale(ie,mpq_class((long)es))); } }
      if(ExprPool::isc(off)) off=canon(off,64,true); set(x,Val::Pt(b.obj,off)); break; }
    case Instruction::Br: { auto*br=cast<BranchInst>(I); if(br->isUnconditional()){ gotoBB(f.f->bbi[br->getSuccessor(0)]); return; } Val c=getI(x,0); bool t=decide(c.e); gotoBB(cur->st.back().f->bbi[br->getSuccessor(t?0:1)]); return; }
    case Instruction::Switch: { auto*sw=cast<SwitchInst>(I); Val c=getI(x,0); for(auto&cs:sw->cases()){ Ex e=icmpE(CmpInst::ICMP_EQ,c,constVal(cs.getCaseValue())); if(decide(e)){ gotoBB(cur->st.back().f->bbi[cs.getCaseSuccessor()]); return; } } gotoBB(cur->st.back().f->bbi[sw->getDefaultDest()]); return; }
    case Instruction::Ret: { Val r; if(I->getNumOperands()) r=get(x,0); popFrame(); if(cur->st.empty()) throw PathEnd{"completed"}; afterCall(std::move(r)); return; }
    case Instruction::Unreachable: { safety(P.F,"unreachable"); throw PathEnd{"violated"}; }
    case Instruction::Resume: { popFrame(); if(cur->st.empty()){ throw PathEnd{"uncaught"}; } unwind(); return; }
    case Instruction::LandingPad: throw Unsupported{"landingpad"};
    case Instruction::Call: case Instruction::Invoke: {
      auto*cb=cast<CallBase>(I); if(cb->isInlineAsm()) { set(x,Val()); if(isa<InvokeInst>(I)) throw Unsupported{"asm"}; break; }
      std::vector<Val> args; for(unsigned i=0;i<cb->arg_size();++i) args.push_back(get(x,i));
      Function* F=cb->getCalledFunction();
      if(!F){ Value* cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*al=dyn_cast<GlobalAlias>(cv)) F=dyn_cast<Function>(al->getAliaseeObject()); else F=dyn_cast<Function>(cv); }
      if(!F){ Val p; unsigned ci=cb->getCalledOperandUse().getOperandNo(); p=get(x,ci); if(p.k!=Val::Ptr||p.obj<=0||p.obj>(int)gobj.size()){ safety(P.F,"bad-indirect-call"); throw PathEnd{"violated"}; } F=const_cast<Function*>(dyn_cast<Function>(gobj[p.obj-1])); if(!F){ safety(P.F,"bad-indirect-call"); throw PathEnd{"violated"}; } }
      if(F->isDeclaration()) for(auto&v:args) v=flat(v);
      if(auto*ii=dyn_cast<IntrinsicInst>(I)){ if(!intrinsic(x,ii,args)) throw Unsupported{"intrinsic "+F->getName().str()}; return; }
      if(external(x,F,args)) return;
      if(F->isDeclaration()) throw Unsupported{"external function "+demangle(F->getName().str())};
      pushCall(F,std::move(args),0); return; }
    case Instruction::ICmp: { Val a=getI2(x,0),b=getI2(x,1); set(x,Val::I(1,icmpE(cast<ICmpInst>(I)->getPredicate(),a,b))); break; }
    case Instruction::FCmp: { Val a=getI(x,0),b=getI(x,1); set(x,Val::I(1,fcmpE(cast<FCmpInst>(I)->getPredicate(),a.e,b.e))); break; }
    case Instruction::Select: { Val c=getI(x,0); Val a=flat(get(x,1)),b=flat(get(x,2)); int k=known(c.e); if(k>=0){ set(x,k?a:b); break; } if(a.k==Val::Undef&&b.k==Val::Undef){ set(x,a); break; } if(a.k==Val::Undef&&b.k!=Val::Ptr&&b.k!=Val::Agg) a=getI(x,1); if(b.k==Val::Undef&&a.k!=Val::Ptr&&a.k!=Val::Agg) b=getI(x,2); if(a.k==Val::Int&&b.k==Val::Int){ set(x,Val::I(a.bits,P.ite(c.e,a.e,b.e))); break; } if(a.k==Val::Real&&b.k==Val::Real){ set(x,Val::R(P.ite(c.e,a.e,b.e))); break; } if(a.k==Val::Ptr&&b.k==Val::Ptr&&a.obj==b.obj){ set(x,Val::Pt(a.obj,P.ite(c.e,a.e,b.e))); break; } bool t=decide(c.e); set(x,t?a:b); break; }
    case Instruction::ZExt: { Val a=getI(x,0); set(x,Val::I(I->getType()->getIntegerBitWidth(),ue(a))); break; }
    case Instruction::SExt: { Val a=getI(x,0); set(x,Val::I(I->getType()->getIntegerBitWidth(),se(a))); break; }
    case Instruction::Trunc: { Val a=getI(x,0); if(a.k==Val::Ptr) a=Val::I(64,addrOf(a)); if(a.k==Val::Real) throw Unsupported{"trunc of real bits"}; set(x,mkInt(I->getType()->getIntegerBitWidth(),raw(a))); break; }
    case Instruction::PtrToInt: { Val a=get(x,0); a.bits=64; set(x,a); break; }
    case Instruction::IntToPtr: { Val a=castTo(get(x,0),I->getType()); if(a.k==Val::Int) a=Val::Pt(0,a.e); set(x,a); break; }
    case Instruction::BitCast: { Val a=get(x,0); if(I->getType()->isPointerTy()||a.k==Val::Undef) { set(x,a); break; } set(x,castTo(a,I->getType())); break; }
    case Instruction::FPExt: case Instruction::FPTrunc: set(x,getI(x,0)); break;
    case Instruction::SIToFP: set(x,Val::R(P.toReal(se(getI(x,0))))); break;
    case Instruction::UIToFP: set(x,Val::R(P.toReal(ue(getI(x,0))))); break;
    case Instruction::FPToSI: { Ex e=getI(x,0).e; bool nn=decide(P.le(P.rc(0),e)); Ex r= nn? P.floor_(e) : P.neg(P.floor_(P.neg(e))); unsigned b=I->getType()->getIntegerBitWidth(); set(x,mkInt(b,canonRange(r,b,true))); break; }
    case Instruction::FPToUI: { Ex e=getI(x,0).e; Ex r=P.floor_(e); unsigned b=I->getType()->getIntegerBitWidth(); set(x,mkInt(b,canonRange(r,b,false))); break; }
    case Instruction::FNeg: { Ex a=getI(x,0).e; set(x,Val::R(nanOr(a,a,P.neg(a)))); break; }
    case Instruction::FAdd: { Ex a=getI(x,0).e,b=getI(x,1).e; set(x,Val::R(nanOr(a,b,P.add(a,b)))); break; }
    case Instruction::FSub: { Ex a=getI(x,0).e,b=getI(x,1).e; set(x,Val::R(nanOr(a,b,P.sub(a,b)))); break; }
    case Instruction::FMul: { Ex a=getI(x,0).e,b=getI(x,1).e; set(x,Val::R(nanOr(a,b,P.mul(a,b)))); break; }
    case Instruction::FDiv: { Ex a=getI(x,0).e,b=getI(x,1).e; if(isNaN(a)||isNaN(b)||(ExprPool::isc(a)&&a->k==0&&ExprPool::isc(b)&&b->k==0)){ set(x,Val::R(P.var(Sort::R,"#nan"))); break; } safety(P.not_(P.eq0(b)),"fdiv-by-zero"); set(x,Val::R(P.rdiv(a,b))); break; }
    case Instruction::Freeze: { Val a=get(x,0); if(a.k==Val::Undef&&!I->getType()->isAggregateType()&&!I->getType()->isPointerTy()) a=freshOf(I->getType(),"freeze"); set(x,a); break; }
    case Instruction::ExtractValue: { Val a=get(x,0); for(unsigned i:cast<ExtractValueInst>(I)->indices()){ if(a.k!=Val::Agg) throw Unsupported{"extractvalue"}; Val b=(*a.agg)[i]; a=b; } set(x,a); break; }
    case Instruction::InsertValue: { Val a=get(x,0); if(a.k==Val::Undef) a=constVal(UndefValue::get(I->getType())); std::function<Val(Val,ArrayRef<unsigned>)> ins=[&](Val b, ArrayRef<unsigned> ix)->Val{ if(ix.empty()) return get(x,1); Val c=b; c.agg=std::make_shared<std::vector<Val>>(*b.agg); (*c.agg)[ix[0]]=ins((*b.agg)[ix[0]],ix.drop_front()); return c; }; set(x,ins(a,cast<InsertValueInst>(I)->getIndices())); break; }
    case Instruction::ExtractElement: { Val a=get(x,0); uint64_t i=cu(getI(x,1)); set(x,a.k==Val::Undef?a:(*a.agg)[i]); break; }
    case Instruction::InsertElement: { Val a=get(x,0); uint64_t i=cu(getI(x,2)); unsigned n=cast<FixedVectorType>(I->getType())->getNumElements(); Val c; c.k=Val::Agg; if(a.k==Val::Undef){ Val u; u.k=Val::Undef; c.agg=std::make_shared<std::vector<Val>>(n,u);} else c.agg=std::make_shared<std::vector<Val>>(*a.agg); (*c.agg)[i]=get(x,1); set(x,c); break; }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: { auto*r=cast<AtomicRMWInst>(I); auto a=access(get(x,0),DL->getTypeStoreSize(I->getType()),true); Val o=loadAt(rd(a.first),a.second,I->getType()); Val n; switch(r->getOperation()){ case AtomicRMWInst::Add: n=intBin(Instruction::Add,o,get(x,1),I); break; case AtomicRMWInst::Sub: n=intBin(Instruction::Sub,o,get(x,1),I); break; case AtomicRMWInst::Xchg: n=get(x,1); break; default: throw Unsupported{"atomicrmw"}; } storeVal(a.first,a.second,n,I->getType()); set(x,o); break; }
    default:
      if(I->isBinaryOp()&&I->getType()->isIntegerTy()){ set(x,intBin(I->getOpcode(),getI(x,0),getI(x,1),I)); break; }
      { std::string s; raw_string_ostream o(s); I->print(o); throw Unsupported{"instruction "+s}; }
  }
  cur->st.back().ip++; }

static std::string js(const std::string& s){ std::string o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }
int main(int argc, char** argv){
  std::string mod=argv[1], entry=argv[2], out; for(int i=3;i<argc;++i){ std::string a=argv[i]; if(a=="-o") out=argv[++i]; else if(a=="-v") verbose=true; else if(a=="--time") maxTime=atof(argv[++i]); else if(a=="--paths") maxPaths=atol(argv[++i]); else if(a=="--assert-ms") tmoAssert=atoi(argv[++i]); else if(a=="--branch-ms") tmoBranch=atoi(argv[++i]); else if(a=="--max-viol") maxViol=atoi(argv[++i]); }
  LLVMContext C; SMDiagnostic err; auto m=parseIRFile(mod,err,C); if(!m){ err.print("irvc",errs()); return 3; } M=m.get(); DL=&m->getDataLayout();
  Solver sv(P); S=&sv; Normaliser nz(P); N=&nz; if(getenv("VERIF_SEED")) sv.seed=atoi(getenv("VERIF_SEED"));
  Function* F=m->getFunction(entry); if(!F){ std::cerr<<"no entry "<<entry<<"\n"; return 3; }
  for(auto&g:m->globals()) globalId(&g); for(auto&f:m->functions()) globalId(&f);
  // wrapper: static initialisers, then the contract harness
  Function* W=Function::Create(FunctionType::get(Type::getVoidTy(C),false),GlobalValue::ExternalLinkage,"vp.main",*m); { BasicBlock* b=BasicBlock::Create(C,"e",W); if(auto*gc=m->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&o:ca->operands()){ auto*cs=dyn_cast<ConstantStruct>(o.get()); if(!cs) continue; if(auto*cf=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) CallInst::Create(cf->getFunctionType(),cf,"",b); } CallInst::Create(F->getFunctionType(),F,"",b); ReturnInst::Create(C,b); }
  // names of vacuity guards reachable (statically) in this harness: every one must be covered
  { std::set<Function*> seen; std::vector<Function*> q{F}; while(!q.empty()){ Function*f=q.back(); q.pop_back(); if(!seen.insert(f).second) continue; for(auto&b:*f) for(auto&i:b) if(auto*cb=dyn_cast<CallBase>(&i)) if(auto*g=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())){ if(g->getName()=="vp_cover"){ if(auto*gv=dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if(auto*cd=dyn_cast<ConstantDataArray>(gv->getInitializer())) covers[cd->getAsCString().str()]=false; } else if(!g->isDeclaration()) q.push_back(g); } } }
  auto s0=std::make_unique<State>(); cur=s0.get(); pushCall(W,{},0); work.push_back(std::move(s0));
  std::string fatal;
  while(!work.empty()){
    auto st=std::move(work.back()); work.pop_back(); cur=st.get();
    if(now()>maxTime||paths>maxPaths){ undec.insert(now()>maxTime?"time budget exhausted":"path budget exhausted"); break; }
    try { for(;;){ step(); if(++cur->steps>maxSteps){ undec.insert("step budget exhausted at "+where()); throw PathEnd{"budget"}; } ++totalSteps; if((totalSteps&1023)==0&&now()>maxTime){ undec.insert("time budget exhausted"); throw PathEnd{"budget"}; } } }
    catch(PathEnd& e){ ends[e.why]++; if(e.why=="completed") paths++; if(e.why=="stop") break; if(verbose&&e.why!="completed") std::cerr<<"path end: "<<e.why<<(cur->st.empty()?"":" at "+where())<<"\n"; }
    catch(Unsupported& u){ undec.insert("unsupported: "+u.why+" at "+where()); ends["unsupported"]++; if(verbose) std::cerr<<"unsupported: "<<u.why<<" at "<<where()<<"\n"; if(ends["unsupported"]>20) break; }
  }
  long ob=0,ok=0; for(auto&p:obls){ ob+=p.second.ok+p.second.bad+p.second.unk; ok+=p.second.ok; }
  std::ostringstream o; o<<"{\"entry\":"<<js(entry)<<",\"paths\":"<<paths<<",\"steps\":"<<totalSteps<<",\"time\":"<<now()<<",\"solver_time\":"<<sv.time<<",\"queries\":"<<sv.queries<<",\"cache_hits\":"<<sv.hits;
  o<<",\"obligations\":"<<ob<<",\"discharged\":"<<ok<<",\"safety\":"<<safetyOk<<",\"by_const\":"<<byConst<<",\"by_ring\":"<<byPoly<<",\"by_z3\":"<<byZ3;
  o<<",\"names\":{"; bool fst=true; for(auto&p:obls){ o<<(fst?"":",")<<js(p.first)<<":["<<p.second.ok<<","<<p.second.bad<<","<<p.second.unk<<"]"; fst=false; } o<<"}";
  o<<",\"ends\":{"; fst=true; for(auto&p:ends){ o<<(fst?"":",")<<js(p.first)<<":"<<p.second; fst=false; } o<<"}";
  o<<",\"covers\":{"; fst=true; for(auto&p:covers){ o<<(fst?"":",")<<js(p.first)<<":"<<(p.second?"true":"false"); fst=false; } o<<"}";
  o<<",\"undecided\":["; fst=true; for(auto&p:undec){ o<<(fst?"":",")<<js(p); fst=false; } o<<"]";
  o<<",\"violations\":["; fst=true; for(auto&v:viols){ o<<(fst?"":",")<<"{\"name\":"<<js(v.name)<<",\"where\":"<<js(v.where)<<",\"lines\":["; bool g=true; for(auto&l:v.lines){ o<<(g?"":",")<<js(l); g=false; } o<<"]}"; fst=false; } o<<"]";
  std::map<std::string,std::map<std::string,std::set<unsigned>>> cov; for(auto&l:locs) if(l.hit&&l.file.find("/dune/functions/")!=std::string::npos&&l.line) cov[l.file][l.fn].insert(l.line);
  o<<",\"functions\":{"; fst=true; for(auto&p:cov){ o<<(fst?"":",")<<js(p.first)<<":{"; bool g=true; for(auto&q:p.second){ o<<(g?"":",")<<js(q.first)<<":["; bool h=true; for(auto l:q.second){ o<<(h?"":",")<<l; h=false; } o<<"]"; g=false; } o<<"}"; fst=false; } o<<"}}\n";
  if(out.empty()) std::cout<<o.str(); else { std::ofstream(out)<<o.str(); }
  std::cout.flush(); _exit(viols.empty()? (undec.empty()?0:2) : 1); }
