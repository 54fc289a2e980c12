#include "grid.hh"
#include <dune/functions/common/subdomain.hh>
namespace S=Dune::Functions::Experimental;
using u64=std::uint64_t; using Dune::GeometryType;
// mesh: arbitrary insertion history of arbitrary elements
template<int dim> void check(vg::GridData<dim,dim>& gd, u64 maxInsert) {
  using GV=vg::GridView<dim,dim>; GV gv(gd); const auto& is=gd.is; const auto& el=gd.elements;
  S::SubDomain<GV> sd(gv);
  std::vector<bool> in(el.size(),false);
  u64 m=vp_split(vp_u64("insertions",0,maxInsert));
  for (u64 k=0;k<m;++k) { u64 i=vp_split(vp_u64("element",0,el.size()-1)); sd.insertElement(el[i]); in[i]=true; }
  auto sgv=sd.gridView(); const auto& sis=sgv.indexSet();
  // elements
  std::size_t n=0; for (u64 i=0;i<el.size();++i) { n+=in[i]; vp_assert(sgv.contains(el[i])==in[i],"exactly the inserted elements are contained"); vp_assert(sd.contains(el[i])==in[i],"exactly the inserted elements are contained (subdomain)"); if (!in[i]) { bool thrown=false; try { sis.index(el[i]); } catch (Dune::Exception&) { thrown=true; } vp_assert(thrown,"asking for the index of a missing element is an error"); } }
  vp_assert((std::size_t)sgv.size(0)==n,"number of elements");
  u64 visited=0, j=0; for (const auto& e : elements(sgv)) { while (j<el.size() && !in[j]) ++j; vp_assert(j<el.size(),"iteration visits only inserted elements"); vp_assert(e==el[j],"iteration visits the inserted elements in order"); ++j; ++visited; }
  vp_assert(visited==n,"iteration visits every inserted element");
  // sub-entities: two have the same index exactly if they are the same host entity; consecutive per type
  for (int cd=0;cd<=dim;++cd) {
    std::size_t total=0; std::vector<GeometryType> seen;
    for (u64 a=0;a<el.size();++a) if (in[a]) {
      auto ra=Dune::referenceElement<double,dim>(el[a].gt);
      for (int i=0;i<ra.size(cd);++i) {
        auto t=ra.type(i,cd); std::size_t h=is.raw(el[a],i,cd), x=sis.subIndex(el[a],i,cd);
        vp_assert(x<sis.size(t),"sub-entity indices are below the size of their type");
        bool first=true, have=false; for (auto s : seen) if (s==t) have=true; if (!have) seen.push_back(t);
        for (u64 b=0;b<=a;++b) if (in[b]) { auto rb=Dune::referenceElement<double,dim>(el[b].gt);
          for (int k=0;k<(b==a ? i : rb.size(cd));++k) if (rb.type(k,cd)==t) { bool same=is.raw(el[b],k,cd)==h; if (same) first=false; vp_assert((sis.subIndex(el[b],k,cd)==x)==same,"two sub-entities share an index exactly if they are the same entity"); } }
        if (first) ++total;
      }
    }
    vp_assert(sis.size(cd)==total,"the size counts the entities of the subdomain"); vp_assert((std::size_t)sgv.size(cd)==total,"the size counts the entities of the subdomain (grid view)");
    std::size_t sum=0; auto types=sis.types(cd); vp_assert(types.size()==seen.size(),"exactly the occurring geometry types are listed");
    for (auto t : types) { sum+=sis.size(t); vp_assert((std::size_t)sgv.size(t)==sis.size(t),"sizes per type"); bool have=false; for (auto s : seen) if (s==t) have=true; vp_assert(have,"only occurring geometry types are listed"); }
    vp_assert(sum==total,"indices are consecutive for each type");
  }
  vp_cover("subdomain");
}
template<int dim> void pin(vg::GridData<dim,dim>& gd, int cd, GeometryType t, std::size_t n) { vp_assume(gd.is.size(t)==n); }
namespace T=Dune::GeometryTypes;
// intervals with arbitrary connectivity
VP_HARNESS(interval) {
  vg::GridData<1,1> gd({T::line,T::line,T::line}); pin(gd,0,T::line,3); pin(gd,1,T::vertex,3); for (u64 i=0;i<3;++i) gd.elements[i].id=7-i;
  for (u64 i=0;i<3;++i) { vp_assume(gd.is.raw(gd.elements[i],0,0)==i); std::size_t a=gd.is.raw(gd.elements[i],0,1), b=gd.is.raw(gd.elements[i],1,1); vp_assume((a<3) & (b<3) & (a!=b)); if (i==0) vp_assume((a==0) & (b==1)); vp_split(a); vp_split(b); }
  check(gd,2);
}
// triangle and quadrilateral sharing an edge, and another triangle
VP_HARNESS(mixed) {
  vg::GridData<2,2> gd({T::triangle,T::quadrilateral,T::triangle});
  pin(gd,0,T::triangle,2); pin(gd,0,T::quadrilateral,1); pin(gd,1,T::line,8); pin(gd,2,T::vertex,6);
  auto& e=gd.elements; e[0].id=5; e[1].id=7; e[2].id=2;
  auto set=[&](int k, int cd, std::vector<int> v) { for (std::size_t i=0;i<v.size();++i) vp_assume(gd.is.raw(e[k],i,cd)==(u64)v[i]); };
  set(0,0,{0}); set(1,0,{0}); set(2,0,{1});
  set(0,2,{0,1,2}); set(1,2,{1,3,2,4}); set(2,2,{3,5,4});
  set(0,1,{0,1,2}); set(1,1,{2,3,4,5}); set(2,1,{6,3,7});
  check(gd,3);
}
// interfaces between subdomains
VP_HARNESS(interface) {
  vg::GridData<2,2> gd({T::triangle,T::triangle}); using GV=vg::GridView<2,2>; GV gv(gd);
  pin(gd,0,T::triangle,2); pin(gd,1,T::line,5); pin(gd,2,T::vertex,4);
  auto& e=gd.elements; e[0].id=5; e[1].id=7; auto set=[&](int k, int cd, std::vector<int> v) { for (std::size_t i=0;i<v.size();++i) vp_assume(gd.is.raw(e[k],i,cd)==(u64)v[i]); };
  set(0,0,{0}); set(1,0,{1}); set(0,2,{0,1,2}); set(1,2,{1,3,2}); set(0,1,{0,1,2}); set(1,1,{3,2,4});
  S::SubDomain<GV> a(gv), b(gv); bool ina[2], inb[2];
  for (int i=0;i<2;++i) { ina[i]=vp_bool("in A"); inb[i]=vp_bool("in B"); if (ina[i]) a.insertElement(e[i]); if (inb[i]) b.insertElement(e[i]); }
  // neighbours: every face is a boundary, or leads to one of the two elements
  bool expect[2][3]; int out[2][3]; int count=0;
  u64 g[2]={vp_split(vp_u64("face",0,2)),1};   // at most one face of each element is not a boundary
  for (int i=0;i<2;++i) for (int f=0;f<3;++f) {
    vg::Intersection<2,2> is{e[i],f,(u64)f}; if ((u64)f!=g[i]) { vp_assume(is.boundary()); vp_assume(is.outside().id==e[0].id); } bool nb=!is.boundary() && is.neighbor();
    u64 o=is.outside().id; vp_assume((o==e[0].id) | (o==e[1].id)); out[i][f] = o==e[0].id ? 0 : 1;
    if (nb) vp_assume(gd.is.raw(is.outside(),0,0)==(u64)out[i][f]);
    expect[i][f]=nb && ina[i] && inb[out[i][f]];
    S::SubDomainInterface<S::SubDomain<GV>,S::SubDomain<GV>> itf(a,b);
    vp_assert(itf.isOriented(is)==expect[i][f],"an intersection is oriented if A is inside and B is outside");
    vp_assert(itf.contains(is)==(nb && ((ina[i] && inb[out[i][f]]) || (ina[out[i][f]] && inb[i]))),"an intersection belongs to the interface if it separates A and B");
    S::SubDomainSkeleton<S::SubDomain<GV>> sk(a); vp_assert(sk.contains(is)==(nb && ina[i] && ina[out[i][f]]),"the skeleton has the interior intersections of the subdomain");
    count+=expect[i][f];
  }
  S::SubDomainInterface<S::SubDomain<GV>,S::SubDomain<GV>> itf(a,b);
  int n=0, i=0, f=0;
  for (const auto& is : itf) {
    while (i<2 && !expect[i][f]) { if (++f==3) { f=0; ++i; } }
    vp_assert(i<2,"iteration visits only intersections of the interface");
    vp_assert((is.inside()==e[i]) & (is.indexInInside()==f),"iteration visits the intersections of the interface in order");
    if (++f==3) { f=0; ++i; } ++n;
  }
  vp_assert(n==count,"iteration visits every intersection of the interface");
  vp_cover("interface");
}
