#include "c04_common.hh"
VP_HARNESS(numTet4) { numbering<3>(BasisFactory::lagrange<4>(),tetrahedron); }
VP_HARNESS(numHex3) { numbering<3>(BasisFactory::lagrange<3>(),hexahedron,{},true); }
VP_HARNESS(shareTetEdge3) { sharingAll<3>(BasisFactory::lagrange<3>(),tetrahedron,tetrahedron,2); }
VP_HARNESS(shareTet4) { sharingAll<3>(BasisFactory::lagrange<4>(),tetrahedron,tetrahedron,1); }
VP_HARNESS(shareHex3) { sharingAll<3>(BasisFactory::lagrange<3>(),hexahedron,hexahedron,1,1); }
VP_HARNESS(shareHexEdge3) { sharingAll<3>(BasisFactory::lagrange<3>(),hexahedron,tetrahedron,2,1); }
VP_HARNESS(update3d) { numbering<3>(BasisFactory::lagrange<3>(),tetrahedron,{},true,true); }
VP_HARNESS(numHex4) { numbering<3>(BasisFactory::lagrange<4>(),hexahedron,{},true); }
VP_HARNESS(numTet5) { numbering<3>(BasisFactory::lagrange<5>(),tetrahedron,{},true); }
VP_HARNESS(shareTet5) { sharingAll<3>(BasisFactory::lagrange<5>(),tetrahedron,tetrahedron,1); }
VP_HARNESS(shareHex4) { sharingAll<3>(BasisFactory::lagrange<4>(),hexahedron,hexahedron,1,1); }
VP_HARNESS(shareHex3below) { sharingAll<3>(BasisFactory::lagrange<3>(),hexahedron,hexahedron,1,2); }
VP_HARNESS(shareHexEdge4) { sharingAll<3>(BasisFactory::lagrange<4>(),hexahedron,tetrahedron,2,1); }
VP_HARNESS(shareHexEdge3below) { sharingAll<3>(BasisFactory::lagrange<3>(),hexahedron,tetrahedron,2,2); }
VP_HARNESS(numTet6) { numbering<3>(BasisFactory::lagrange<6>(),tetrahedron,{},true); }
VP_HARNESS(shareTet6) { sharingAll<3>(BasisFactory::lagrange<6>(),tetrahedron,tetrahedron,1); }
VP_HARNESS(shareTet7) { sharingAll<3>(BasisFactory::lagrange<7>(),tetrahedron,tetrahedron,1,1); }
VP_HARNESS(sepTet3) { separate<3>(BasisFactory::lagrange<3>(),tetrahedron,tetrahedron); }
VP_HARNESS(sepTetHex3) { separate<3>(BasisFactory::lagrange<3>(),tetrahedron,hexahedron); }
#if VP_THOROUGH
VP_HARNESS(shareTetEdge5) { sharingAll<3>(BasisFactory::lagrange<5>(),tetrahedron,tetrahedron,2); }
VP_HARNESS(shareHex5) { sharingAll<3>(BasisFactory::lagrange<5>(),hexahedron,hexahedron,1,1); }
VP_HARNESS(shareHex4below) { sharingAll<3>(BasisFactory::lagrange<4>(),hexahedron,hexahedron,1,2); }
#endif
