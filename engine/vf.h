// Contract language of jcv.  A proof_*() function states the contract of one or more real
// functions:  inputs (vf_u*), precondition (vf_assume), call, postcondition (vf_assert).
#ifndef VF_H
#define VF_H
#include <cstddef>
#include <cstdint>
extern "C"
{
  uint64_t vf_nondet(unsigned bits, const char * name); // any value of that width
  uint64_t vf_choose(uint64_t n, const char * name);    // every value in [0,n), one case each
  void vf_assume(bool c);
  void vf_assert(bool c, const char * obligation);
  void vf_cover(const char * name);        // must be reached by some path
  void vf_expect_cover(const char * name); // declares a cover that must be reached
  [[noreturn]] void vf_stop();
  void vf_abort_is_report(bool on); // a failing assertion of the code counts as reported error
  int vf_is_native();
  int vf_is_const(uint64_t v); // is a literal on this path (evaluation shortcut only)
  bool vf_and(bool a, bool b); // no short circuit: one formula
  bool vf_or(bool a, bool b);
  bool vf_implies(bool a, bool b);
  uint64_t vf_ite64(bool c, uint64_t a, uint64_t b);
  // total: x/0 = all ones, x%0 = x (SMT-LIB)
  uint64_t vf_udiv64(uint64_t a, uint64_t b);
  uint64_t vf_urem64(uint64_t a, uint64_t b);
  uint64_t vf_sdiv64(uint64_t a, uint64_t b);
  uint64_t vf_srem64(uint64_t a, uint64_t b);
  void vf_print(const char * name, uint64_t v);
}
static inline uint64_t vf_u64(const char * n) { return vf_nondet(64, n); }
static inline int64_t vf_i64(const char * n) { return (int64_t)vf_nondet(64, n); }
static inline uint32_t vf_u32(const char * n) { return (uint32_t)vf_nondet(32, n); }
static inline uint8_t vf_u8(const char * n) { return (uint8_t)vf_nondet(8, n); }
static inline bool vf_bool(const char * n) { return vf_nondet(1, n) & 1; }
// bounded but symbolic integer
static inline uint64_t
vf_below(uint64_t n, const char * name)
{
  uint64_t v = vf_nondet(64, name);
  vf_assume(v < n);
  return v;
}
#define VF_COVER(n) vf_cover(n)
#endif
