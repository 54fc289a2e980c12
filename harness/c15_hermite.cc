#include "c15_transformed.hh"
VP_HARNESS(hermite1) { duality<1>(cubicHermite(),false); }
VP_HARNESS(hermite2) { duality<2>(cubicHermite(),false); }
VP_HARNESS(hermite3) { duality<3>(cubicHermite(),false); }
VP_HARNESS(reduced2) { duality<2>(reducedCubicHermite(),false); }
VP_HARNESS(hermiteInt1) { interpolation<1>(cubicHermite(),false); }
VP_HARNESS(hermiteInt2) { interpolation<2>(cubicHermite(),false); }
VP_HARNESS(hermiteInt3) { interpolation<3>(cubicHermite(),false); }
VP_HARNESS(reducedInt2) { interpolation<2>(reducedCubicHermite(),false); }
VP_HARNESS(hermiteDer1) { derivatives<1>(cubicHermite(),false); }
VP_HARNESS(hermiteDer2) { derivatives<2>(cubicHermite(),false); }
VP_HARNESS(hermiteDer3) { derivatives<3>(cubicHermite(),false); }
VP_HARNESS(reducedDer2) { derivatives<2>(reducedCubicHermite(),false); }
VP_HARNESS(hermiteCopy) { copies<2>(cubicHermite(),false); }
