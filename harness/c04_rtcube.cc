#define SINGLE 1
#include "c04_runtime.hh"
VP_HARNESS(num2) { numbering<2>(BasisFactory::lagrange(order(1,4)),T2,{},true); }
VP_HARNESS(num3) { numbering<3>(BasisFactory::lagrange(order(1,2)),T3,{},true); }
VP_HARNESS(update2) { numbering<2>(BasisFactory::lagrange(order(1,4)),T2,{},true,true); }
VP_HARNESS(sep2) { separate<2>(BasisFactory::lagrange(order(1,3)),T2,T2); }
VP_HARNESS(share2) { sharingAll<2>(BasisFactory::lagrange(order(2,4)),T2,T2,1); }
