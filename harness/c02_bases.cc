// descriptors of the bases of the repository, over an abstract grid of arbitrary size
#include "c02_common.hh"
#include "grid.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
using u64=std::uint64_t; using Dune::GeometryType; using namespace Dune::GeometryTypes; using namespace Dune::Indices;
template<int dim> struct Grid { vg::GridData<dim> d; vg::GridView<dim> gv; Grid(std::vector<GeometryType> t) : d(t,0,{},true), gv(d) {} };
template<class B> void shapeOf(const B& b) { using PB=typename B::PreBasis; auto cd=b.containerDescriptor(); static_assert(!std::is_same_v<decltype(cd),CD::Unknown>); const auto& pb=b.preBasis();
  sameShape(pb,cd,Prefix<PB>{},"at every prefix the descriptor has the size of the basis"); sameShape(pb,Dune::Functions::containerDescriptor(pb),Prefix<PB>{},"at every prefix the descriptor has the size of the basis");
  typename B::SizePrefix p; p.resize(0); vp_assert((b.size()==Dune::Hybrid::size(cd)) & (b.size(p)==b.size()),"the size of the basis is that of its descriptor"); if constexpr (PB::maxMultiIndexSize==1) vp_assert(Dune::Hybrid::size(cd)==b.dimension(),"flat descriptors have one entry per degree of freedom"); }
template<int dim, class F> void shape(const F& f, std::vector<GeometryType> t) { Grid<dim> g(t); auto b=makeBasis(g.gv,f); shapeOf(b); Grid<dim> o({t.back()}); b.update(o.gv); shapeOf(b); }
template<int dim, bool hybrid> void taylor(std::vector<GeometryType> t) { Grid<dim> g(t); DefaultGlobalBasis<TaylorHoodPreBasis<vg::GridView<dim>,hybrid>> b(g.gv); shapeOf(b); }
VP_HARNESS(s_th1) { taylor<1,false>({line}); } VP_HARNESS(s_th1h) { taylor<1,true>({line}); }
VP_HARNESS(s_th2) { taylor<2,false>({triangle,quadrilateral}); } VP_HARNESS(s_th2h) { taylor<2,true>({triangle,quadrilateral}); }
VP_HARNESS(s_th3) { taylor<3,false>({tetrahedron,prism}); } VP_HARNESS(s_th3h) { taylor<3,true>({tetrahedron,hexahedron}); }
VP_HARNESS(s_lagrange) { shape<2>(lagrange<3>(),{triangle,quadrilateral}); shape<3>(lagrange<2>(),{tetrahedron,pyramid}); }
VP_HARNESS(s_dg) { shape<2>(lagrangeDG<2>(),{triangle,quadrilateral}); }
VP_HARNESS(s_other) { shape<2>(rannacherTurek(),{quadrilateral,quadrilateral}); shape<2>(refinedLagrange<1>(),{triangle,triangle}); shape<2>(hierarchicalLagrange<2>(),{triangle,triangle}); }
VP_HARNESS(s_bspline) { Grid<2> g({quadrilateral,quadrilateral,quadrilateral,quadrilateral}); g.d.is.fixed[0]=true; std::vector<double> t{0,1,2}; auto b=makeBasis(g.gv,bSpline(t,vp_split(vp_u64("p",0,3)))); shapeOf(b); }
VP_HARNESS(s_mixed) { shape<2>(composite(power<2>(lagrange<2>(),blockedInterleaved()),power<2>(lagrangeDG<1>(),flatLexicographic()),lagrange<1>(),blockedLexicographic()),{triangle,quadrilateral}); }
VP_HARNESS(s_subspace) { Grid<2> g({triangle,quadrilateral}); auto b=makeBasis(g.gv,composite(power<2>(lagrange<2>(),blockedInterleaved()),lagrange<1>(),blockedLexicographic())); auto check=[&](const auto& s) { sameShape(b.preBasis(),s.containerDescriptor(),Prefix<std::decay_t<decltype(b.preBasis())>>{},"subspaces have the descriptor of the root basis"); }; check(subspaceBasis(b,_0)); check(subspaceBasis(b,_1)); check(subspaceBasis(b,_0,1)); }
