// Included first by every contract harness.
#pragma once
#include "vp.hh"
#include <dune/common/exceptions.hh>
#ifndef VP_NATIVE
// extraction drops only the *text* of exception messages
#undef DUNE_THROW
#define DUNE_THROW(E,m) do { throw E(); } while(0)
#endif
#include <vector>
#include <array>
#include <utility>
#define VP_HARNESS(name) extern "C" void vp_check_##name()
