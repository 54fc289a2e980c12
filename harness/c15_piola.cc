#include "c15_piola.hh"
static int F(GeometryType t, const char* n, int dim) { return (int)vp_split(vp_u64(n,0,dim==2 ? Dune::referenceElement<double,2>(t).size(1)-1 : Dune::referenceElement<double,3>(t).size(1)-1)); }
static GeometryType T2(const char* n) { return vp_split(vp_u64(n,0,1)) ? quadrilateral : triangle; }
static GeometryType T3(const char* n) { return vp_split(vp_u64(n,0,1)) ? hexahedron : tetrahedron; }
#define NEXT(a,b) GeometryType a=T2("a"), b=T2("b");
VP_HARNESS(rt0_2) { NEXT(a,b) transformed<2,false>(BasisFactory::raviartThomas<0>(),a,b,F(a,"s0",2),0); }
VP_HARNESS(rt0_3) { GeometryType t[]={tetrahedron,pyramid,prism,hexahedron}; auto a=t[vp_split(vp_u64("a",0,3))]; transformed<3,false>(BasisFactory::raviartThomas<0>(),a,a,0,0); }
VP_HARNESS(rt1_tri) { transformed<2,false>(BasisFactory::raviartThomas<1>(),triangle,triangle,F(triangle,"s0",2),1); }
VP_HARNESS(rt1_quad) { transformed<2,false>(BasisFactory::raviartThomas<1>(),quadrilateral,quadrilateral,F(quadrilateral,"s0",2),1); }
VP_HARNESS(bdm1_tri) { transformed<2,false>(BasisFactory::brezziDouglasMarini<1>(),triangle,triangle,F(triangle,"s0",2),1); }
VP_HARNESS(bdm1_quad) { transformed<2,false>(BasisFactory::brezziDouglasMarini<1>(),quadrilateral,quadrilateral,F(quadrilateral,"s0",2),1); }
VP_HARNESS(bdm2_tri) { transformed<2,false>(BasisFactory::brezziDouglasMarini<2>(),triangle,triangle,0,1); }
VP_HARNESS(bdm2_quad) { transformed<2,false>(BasisFactory::brezziDouglasMarini<2>(),quadrilateral,quadrilateral,0,1); }
VP_HARNESS(ned_2) { NEXT(a,b) transformed<2,true>(BasisFactory::nedelec<1,1>(),a,b,0,0,vp_split(vp_u64("numbering",0,2))); }
VP_HARNESS(flux2) { NEXT(a,b) fluxes<2>(BasisFactory::raviartThomas<0>(),a,b,F(a,"s0",2),F(b,"s1",2)); }
VP_HARNESS(fluxTri3) { GeometryType t[]={tetrahedron,pyramid,prism}; auto a=t[vp_split(vp_u64("a",0,2))], b=t[vp_split(vp_u64("b",0,2))]; auto tri=[](GeometryType g, const char* n) { int f=F(g,n,3); vp_assume(Dune::referenceElement<double,3>(g).type(f,1)==triangle); return f; }; int s0=tri(a,"s0"), s1=tri(b,"s1"); fluxes<3>(BasisFactory::raviartThomas<0>(),a,b,s0,s1); }
VP_HARNESS(fluxQuad3) { GeometryType t[]={hexahedron,pyramid,prism}; auto a=t[vp_split(vp_u64("a",0,2))], b=t[vp_split(vp_u64("b",0,2))]; auto quad=[](GeometryType g, const char* n) { int f=F(g,n,3); vp_assume(Dune::referenceElement<double,3>(g).type(f,1)==quadrilateral); return f; }; int s0=quad(a,"s0"), s1=quad(b,"s1"); fluxes<3>(BasisFactory::raviartThomas<0>(),a,b,s0,s1); }
VP_HARNESS(circ2) { NEXT(a,b) circulations<2>(BasisFactory::nedelec<1,1>(),a,b,vp_split(vp_u64("numbering",0,4))); }
