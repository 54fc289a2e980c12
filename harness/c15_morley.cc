#include "c15_transformed.hh"
VP_HARNESS(morley) { duality<2>(::morley(),true); }
VP_HARNESS(morleyInt) { interpolation<2>(::morley(),true); }
VP_HARNESS(morleyDer) { derivatives<2>(::morley(),true); }
VP_HARNESS(morleyCopy) { copies<2>(::morley(),true); }
VP_HARNESS(argyris) { duality<2>(::argyris(),true); }
VP_HARNESS(argyrisInt) { interpolation<2>(::argyris(),true); }
VP_HARNESS(argyrisDer) { derivatives<2>(::argyris(),true); }
VP_HARNESS(argyrisCopy) { copies<2>(::argyris(),true); }
