#include "c04_common.hh"
#define TRIQUAD(k) \
VP_HARNESS(numTri##k) { numbering<2>(BasisFactory::lagrange<k>(),triangle); } \
VP_HARNESS(numQuad##k) { numbering<2>(BasisFactory::lagrange<k>(),quadrilateral); } \
VP_HARNESS(numMixed##k) { if (vp_split(vp_u64("m",0,1))) numbering<2>(BasisFactory::lagrange<k>(),triangle,{quadrilateral},true); else numbering<2>(BasisFactory::lagrange<k>(),quadrilateral,{triangle},true); } \
VP_HARNESS(sep##k) { switch (vp_split(vp_u64("m",0,2))) { case 0: return separate<2>(BasisFactory::lagrange<k>(),triangle,triangle); case 1: return separate<2>(BasisFactory::lagrange<k>(),triangle,quadrilateral); default: separate<2>(BasisFactory::lagrange<k>(),quadrilateral,quadrilateral); } } \
VP_HARNESS(shareTri##k) { sharingAll<2>(BasisFactory::lagrange<k>(),triangle,triangle,1); } \
VP_HARNESS(shareQuad##k) { sharingAll<2>(BasisFactory::lagrange<k>(),quadrilateral,triangle,1); }
VP_HARNESS(update2d) { if (vp_split(vp_u64("m",0,1))) numbering<2>(BasisFactory::lagrange<3>(),triangle,{quadrilateral},true,true); else numbering<2>(BasisFactory::lagrange<1>(),quadrilateral,{},true,true); }
TRIQUAD(1) TRIQUAD(2) TRIQUAD(3) TRIQUAD(4)
TRIQUAD(0) TRIQUAD(5) TRIQUAD(6)
