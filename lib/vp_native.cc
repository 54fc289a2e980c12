// Native meaning of the contract vocabulary: replays a counterexample of the
// verifier (VP_REPLAY=<file>) or runs with random inputs (VP_RANDOM=<seed>)
// against the natively compiled real code.
#include "vp.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <random>
#include <new>
#include <dlfcn.h>
#include <exception>
static long liveHeap=0;
void* operator new(std::size_t n){ ++liveHeap; void*p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n){ ++liveHeap; void*p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void*p) noexcept { if(p) --liveHeap; std::free(p); }
void operator delete[](void*p) noexcept { if(p) --liveHeap; std::free(p); }
void operator delete(void*p,std::size_t) noexcept { if(p) --liveHeap; std::free(p); }
void operator delete[](void*p,std::size_t) noexcept { if(p) --liveHeap; std::free(p); }
static bool replay=false; static std::mt19937_64 rng;
static std::map<std::string,std::vector<std::string>>* nd; // by name (with occurrence suffix), diffs in order
static std::vector<double>* diffs; static size_t nextDiff=0;
static std::map<std::string,std::string>* uf; static std::map<std::string,int>* occ;
static long acc=0;
static double rat(const std::string& s){ auto p=s.find('/'); if(p==std::string::npos) return std::strtod(s.c_str(),nullptr); return (double)(std::strtold(s.substr(0,p).c_str(),nullptr)/std::strtold(s.substr(p+1).c_str(),nullptr)); }
static std::string uniq(const char* n){ int k=(*occ)[n]++; return k? std::string(n)+"#"+std::to_string(k) : std::string(n); }
static const std::string* look(const std::string& n){ auto it=nd->find(n); if(it==nd->end()||it->second.empty()) return nullptr; return &it->second[0]; }
static long double num(const std::string&s){ return std::strtold(s.c_str(),nullptr); }
static std::uint64_t rnd(std::uint64_t lo,std::uint64_t hi){ std::uint64_t span=hi-lo; switch(rng()%4){ case 0: return lo + (span? rng()%std::min<std::uint64_t>(span+(span!=~0ull),4):0); case 1: return hi - (span? rng()%std::min<std::uint64_t>(span+(span!=~0ull),3):0); case 2: return lo + (span? rng()%std::min<std::uint64_t>(span+(span!=~0ull),20):0); default: return span==~0ull? rng(): lo+rng()%(span+1);} }
static std::string key(const char* n, std::initializer_list<std::uint64_t> a){ std::string k=n; for(auto x:a) k+=","+std::to_string(x); return k; }
extern "C" {
std::uint64_t vp_u64(const char*n,std::uint64_t lo,std::uint64_t hi){ if(lo>hi) { std::fprintf(stderr,"vp: infeasible\n"); _Exit(43);} auto u=uniq(n); if(replay){ auto s=look(u); return s? std::strtoull(s->c_str(),nullptr,10):lo; } return rnd(lo,hi); }
std::int64_t vp_i64(const char*n,std::int64_t lo,std::int64_t hi){ auto u=uniq(n); if(replay){ auto s=look(u); return s? std::strtoll(s->c_str(),nullptr,10):lo; } return (std::int64_t)(lo+(std::int64_t)rnd(0,(std::uint64_t)hi-(std::uint64_t)lo)); }
double vp_real(const char*n){ auto u=uniq(n); if(replay){ auto s=look(u); return s? rat(*s):0.; } return (double)((long)(rng()%33)-16)/ (double)(1<<(rng()%4)); }
bool vp_bool(const char*n){ auto u=uniq(n); if(replay){ auto s=look(u); return s&&*s=="1"; } return rng()&1; }
double vp_select(bool c,double a,double b){ return c?a:b; }
std::uint64_t vp_split(std::uint64_t x){ return x; }
std::uint64_t vp_uf(const char*n,std::uint64_t lo,std::uint64_t hi,std::uint64_t a,std::uint64_t b,std::uint64_t c,std::uint64_t d){ if(lo>hi){ std::fprintf(stderr,"vp: infeasible\n"); _Exit(43);} auto k=key(n,{a,b,c,d}); auto it=uf->find(k); if(it!=uf->end()) return std::strtoull(it->second.c_str(),nullptr,10); std::uint64_t v=replay?lo:rnd(lo,hi); (*uf)[k]=std::to_string(v); return v; }
double vp_ufi(const char*n,std::uint64_t a,std::uint64_t b,std::uint64_t c,std::uint64_t d){ auto k=key(n,{a,b,c,d}); auto it=uf->find(k); if(it!=uf->end()) return rat(it->second); double v= replay?0.:(double)((long)(rng()%33)-16)/(double)(1<<(rng()%4)); char buf[64]; std::snprintf(buf,64,"%.17g",v); (*uf)[k]=buf; return v; }
double vp_ufr(const char*n,std::uint64_t i,double a,double b,double c){ char kb[256]; std::snprintf(kb,256,"%s,%lu,%.12g,%.12g,%.12g",n,(unsigned long)i,a+0.,b+0.,c+0.); auto it=uf->find(kb); if(it!=uf->end()) return rat(it->second); double v= replay?0.:(double)((long)(rng()%33)-16)/(double)(1<<(rng()%4)); char buf[64]; std::snprintf(buf,64,"%.17g",v); (*uf)[kb]=buf; return v; }
void vp_assume(bool c){ if(!c){ std::fprintf(stderr,"vp: assumption not met\n"); _Exit(43); } ++acc; }
void vp_assert(bool c,const char*n){ if(!c){ std::fprintf(stderr,"VP-FAIL: %s\n",n); _Exit(42); } }
void vp_assert_eq(double a,double b,const char*n){ if(std::isnan(a)&&!replay) return; if(std::isnan(b)&&!replay) return; if(!(std::abs(a-b)<=1e-7*(1+std::abs(a)+std::abs(b)))){ std::fprintf(stderr,"VP-FAIL: %s (%.17g != %.17g)\n",n,a,b); _Exit(42);} }
void vp_cover(const char*){ }
double vp_diff(double,double){ if(replay&&nextDiff<diffs->size()) return (*diffs)[nextDiff++]; return NAN; }
std::uint64_t vp_live_heap(){ return liveHeap; }
void vp_trace(const char*n,std::uint64_t v){ std::fprintf(stderr,"trace %s = %lu\n",n,(unsigned long)v); }
}
int main(int argc,char**argv){
  nd=new std::map<std::string,std::vector<std::string>>; diffs=new std::vector<double>; uf=new std::map<std::string,std::string>; occ=new std::map<std::string,int>;
  if(const char*f=std::getenv("VP_REPLAY")){ replay=true; std::ifstream in(f); std::string l; while(std::getline(in,l)){ std::istringstream s(l); std::string t; s>>t; if(t=="nd"){ std::string k,n,v; s>>k>>n>>v; if(k=="d") diffs->push_back(rat(v)); else (*nd)[n].push_back(v);} else if(t=="uf"){ std::string n; int c; s>>n>>c; std::vector<std::string> a(c); bool real=false; for(auto&x:a){ s>>x; if(x.find('/')!=std::string::npos) real=true; } std::string v; s>>v; std::string k=n; if(real){ k+=","+a[0]; for(size_t i=1;i<a.size();++i){ char b[64]; std::snprintf(b,64,",%.12g",rat(a[i])+0.); k+=b; } } else for(auto&x:a) k+=","+x; (*uf)[k]=v; } } }
  if(const char*r=std::getenv("VP_RANDOM")) rng.seed(std::strtoull(r,nullptr,10));
  void* h=dlopen(nullptr,RTLD_NOW); auto fn=(void(*)())dlsym(h,argv[1]); if(!fn){ std::fprintf(stderr,"no entry %s\n",argv[1]); return 3; }
  try { fn(); } catch(std::exception& e){ std::fprintf(stderr,"VP-FAIL: uncaught exception\n"); _Exit(42); } catch(...){ std::fprintf(stderr,"VP-FAIL: uncaught exception\n"); _Exit(42); }
  return 0; }
