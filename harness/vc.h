// Verification primitives: contracts are written once, in functions VC_PROOF(name) { ... }.
// - With VC_SYMBOLIC, the functions are extracted with the code they call, and every vc_assert, vc_invariant, memory
//   access, division and expected exception becomes an obligation for all inputs (the bounds lo, hi are ignored).
// - Otherwise, they are executed for inputs within [lo, hi] (replay of counterexamples, bounded stand-in).
#ifndef VC_H
#define VC_H

#include <cstddef>

extern "C" {
long vc_long(const char* name, long lo, long hi);
bool vc_bool(const char* name);
double vc_double(const char* name, double lo, double hi);
int* vc_array_int(const char* name, long size);
long* vc_array_long(const char* name, long size);
double* vc_array_double(const char* name, long size);
float* vc_array_float(const char* name, long size);
void vc_assume(bool condition);
void vc_split(bool condition);
void vc_assert(bool condition, const char* label);
void vc_invariant(bool condition, const char* label);
void vc_expect_throw(bool condition, const char* label);
void vc_expect_end();
long vc_live_allocs();
void vc_pow2(long p);
void vc_iteration_1(long i);
void vc_iteration_2(long i, long j);
void vc_iteration_3(long i, long j, long k);
void vc_expect_result(bool expected, bool thrown, const char* label);
void vc_unexpected(const char* what);
}

#ifdef VC_SYMBOLIC
#define VC_PROOF(name) extern "C" void proof_##name()
#define VC_THROWS_IFF(E, cond, label, ...) \
  do { \
    vc_expect_throw(cond, label); \
    { __VA_ARGS__; } \
    vc_expect_end(); \
  } while (0)
#else
#include <exception>
typedef void (*vc_fn)();
int vc_register(const char* name, vc_fn fn, const char* kind);
#define VC_PROOF(name) \
  static void proof_##name(); \
  static int vc_reg_##name = vc_register(#name, proof_##name, "proof"); \
  static void proof_##name()
// Out of the reach of the verifier: executed only, within the stated bounds
#define VC_BOUNDED(name) \
  static void proof_##name(); \
  static int vc_reg_##name = vc_register(#name, proof_##name, "bounded"); \
  static void proof_##name()
#define VC_THROWS_IFF(E, cond, label, ...) \
  do { \
    const bool vc_exp = (cond); \
    bool vc_thrown = false; \
    try { \
      __VA_ARGS__; \
    } catch (const E&) { \
      vc_thrown = true; \
    } \
    vc_expect_result(vc_exp, vc_thrown, label); \
  } while (0)
#endif

#endif
