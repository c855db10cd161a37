// Contract language of the deductive verifier (see DESIGN.md).
//
// A unit is a C++ file with VC_PROOF(name) { ... } functions.  Each one is a
// contract on the real /repo functions it calls: symbolic inputs, VC_ASSUME
// (precondition), calls into the unmodified /repo code, VC_ASSERT / VC_EQ / ...
// (postcondition).  The same file is compiled twice:
//   * without VC_NATIVE: to LLVM IR; vc_* are uninterpreted and the verifier
//     generates and discharges the obligations for all values;
//   * with VC_NATIVE: to machine code; vc_* read a counterexample (replay) or a
//     random generator (bounded stand-in when a proof does not go through).
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>

extern "C" {
double vc_sym_double(const char *name);
uint64_t vc_sym_u64(const char *name);
uint32_t vc_sym_u32(const char *name);
uint16_t vc_sym_u16(const char *name);
uint8_t vc_sym_u8(const char *name);
bool vc_sym_bool(const char *name);
void vc_do_assume(bool c);
void vc_do_assert(bool c, const char *label);
// exact equality first; |a-b| <= tol*(1+|a|+|b|) natively
void vc_do_eq(double a, double b, double tol, const char *label);
void vc_do_eqlemma(double a, double b, double tol, const char *label);
void vc_do_le(double a, double b, double tol, const char *label);
void vc_do_cover(const char *label);
// assert, then use as a fact for later obligations
void vc_do_lemma(bool c, const char *label);
void vc_do_config(const char *opts);
// true in the verifier, false natively
bool vc_symbolic(void);
void vc_do_expect_throw(const char *label);
// unspecified-length array of unconstrained elements (stride bytes each)
void *vc_sym_array(const char *name, uint64_t n, uint64_t stride, const char *fields);
// natively: draws from [lo,hi] with boundary bias
void vc_hint_double(double *x, double lo, double hi);
void vc_hint_i64(int64_t *x, int64_t lo, int64_t hi);
}

#ifdef VC_NATIVE
#include "vc_native.h"
#else
#define VC_PROOF(name) extern "C" void vcproof_##name()
inline double vc_double(const char *n, double lo, double hi) {
  double x = vc_sym_double(n);
  vc_do_assume(x >= lo);
  vc_do_assume(x <= hi);
  return x;
}
inline double vc_double(const char *n) { return vc_sym_double(n); }
inline int vc_int(const char *n, int lo, int hi) {
  int x = static_cast<int>(vc_sym_u32(n));
  vc_do_assume(x >= lo);
  vc_do_assume(x <= hi);
  return x;
}
inline int64_t vc_i64(const char *n, int64_t lo, int64_t hi) {
  int64_t x = static_cast<int64_t>(vc_sym_u64(n));
  vc_do_assume(x >= lo);
  vc_do_assume(x <= hi);
  return x;
}
inline uint64_t vc_u64(const char *n, uint64_t lo, uint64_t hi) {
  uint64_t x = vc_sym_u64(n);
  if (hi <= INT64_MAX) {
    vc_do_assume(static_cast<int64_t>(x) >= 0);
    vc_do_assume(static_cast<int64_t>(x) <= static_cast<int64_t>(hi));
  }
  vc_do_assume(x >= lo);
  vc_do_assume(x <= hi);
  return x;
}
inline uint64_t vc_u64(const char *n) { return vc_sym_u64(n); }
inline uint32_t vc_u32(const char *n) { return vc_sym_u32(n); }
inline uint16_t vc_u16(const char *n) { return vc_sym_u16(n); }
inline uint8_t vc_u8(const char *n) { return vc_sym_u8(n); }
inline bool vc_bool(const char *n) { return vc_sym_bool(n); }
#endif

// one of 0..n-1, a separate path for each
inline int vc_choose(const char *name, int n) {
  int v = vc_int(name, 0, n - 1);
  for (int i = 0; i < n - 1; i++)
    if (v == i) return i;
  return n - 1;
}
#define VC_ASSUME(c) vc_do_assume(c)
#define VC_ASSERT(c, label) vc_do_assert((c), label)
#define VC_LEMMA(c, label) vc_do_lemma((c), label)
#define VC_EQ(a, b, label) vc_do_eq((a), (b), 1e-7, label)
#define VC_EQT(a, b, tol, label) vc_do_eq((a), (b), (tol), label)
#define VC_LEMMA_EQ(a, b, label) vc_do_eqlemma((a), (b), 1e-7, label)
#define VC_LEMMA_EQT(a, b, tol, label) vc_do_eqlemma((a), (b), (tol), label)
#define VC_LE(a, b, label) vc_do_le((a), (b), 1e-7, label)
#define VC_COVER(label) vc_do_cover(label)
#define VC_CONFIG(o) vc_do_config(o)
// the statement must throw (any exception type E)
#define VC_THROWS(stmt, E, label)      \
  do {                                 \
    bool vc_threw_ = false;            \
    try {                              \
      stmt;                            \
    } catch (const E &) {              \
      vc_threw_ = true;                \
    }                                  \
    VC_ASSERT(vc_threw_, label);       \
  } while (0)
#define VC_NO_THROW(stmt, label)       \
  do {                                 \
    bool vc_threw_ = false;            \
    try {                              \
      stmt;                            \
    } catch (...) {                    \
      vc_threw_ = true;                \
    }                                  \
    VC_ASSERT(!vc_threw_, label);      \
  } while (0)
#endif
