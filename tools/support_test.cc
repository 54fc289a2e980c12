// g++ -std=c++20 -I/verif/lib -isystem /opt/dune/venv/include tools/support_test.cc /opt/dune/venv/lib/libdunegeometry.a /opt/dune/venv/lib/libdunecommon.a
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.hh>
#include <cstdio>
#include <vector>
#define VP_SUPPORT_TEST
#include "../lib/support.cc"
int main() { long n=0; using namespace Dune::Geo; for (int d=0;d<=4;++d) for (unsigned id=0; id<(1u<<d); ++id) { if (Impl::referenceVolumeInverse(id,d)!=VpImpl::referenceVolumeInverse(id,d)) { std::printf("vol\n"); return 1; } for (int c=0;c<=d;++c) { unsigned s=Impl::size(id,d,c); if (s!=VpImpl::size(id,d,c)) return 1; for (unsigned i=0;i<s;++i) { unsigned t=Impl::subTopologyId(id,d,c,i); if (t!=VpImpl::subTopologyId(id,d,c,i)) { std::printf("sub\n"); return 1; } for (int k=0;k<=d-c;++k) { unsigned m=Impl::size(t,d-c,k); std::vector<unsigned> a(m),b(m); Impl::subTopologyNumbering(id,d,c,i,k,a.data(),a.data()+m); VpImpl::subTopologyNumbering(id,d,c,i,k,b.data(),b.data()+m); if (a!=b) { std::printf("num\n"); return 1; } ++n; } } } } std::printf("ok %ld\n",n); }
