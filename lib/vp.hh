// Contract vocabulary of the verifier (declarations only: their meaning is
// given by the symbolic engine, or by lib/vp_native.cc when a counterexample
// is replayed against natively compiled code).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
  // universally quantified inputs
  uint64_t vp_u64(const char* name, uint64_t lo, uint64_t hi);
  int64_t  vp_i64(const char* name, int64_t lo, int64_t hi);
  double   vp_real(const char* name);
  bool     vp_bool(const char* name);
  // case split over every feasible value
  uint64_t vp_split(uint64_t x);
  // case distinction without a branch
  double   vp_select(bool c, double a, double b);
  // uninterpreted (contract) functions
  uint64_t vp_uf(const char* name, uint64_t lo, uint64_t hi, uint64_t a, uint64_t b, uint64_t c, uint64_t d);
  double   vp_ufi(const char* name, uint64_t a, uint64_t b, uint64_t c, uint64_t d);   // int args, real value
  double   vp_ufr(const char* name, uint64_t i, double a, double b, double c);         // real args, real value
  // requires / ensures / vacuity
  void vp_assume(bool c);
  void vp_assert(bool c, const char* name);
  void vp_assert_eq(double a, double b, const char* name);
  void vp_cover(const char* name);
  // exact derivative of a real term with respect to a universally quantified real
  double vp_diff(double e, double x);
  uint64_t vp_live_heap();   // number of live heap allocations (ghost)
  void vp_trace(const char* name, uint64_t v);
}
