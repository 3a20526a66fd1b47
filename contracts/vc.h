// Contract interface shared by the verifier (VC_PROOF: the vc_* functions are symbolic) and by the native
// replay build (native/runner.cpp implements them).  Contracts call the real functions of /repo.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cmath>

extern "C" {
float vc_any();                         // any finite float (native: extreme magnitudes included)
float vc_real();                        // any number (native: moderate magnitudes)
float vc_range(float lo, float hi);     // any number in [lo, hi]
float vc_num(float lo, float hi);       // proof: any number (no bound); native: a number in [lo, hi]
int vc_int(int lo, int hi);             // any integer in [lo, hi]
std::size_t vc_size(std::size_t lo, std::size_t hi); // proof: any n >= lo (no upper bound); native: lo..hi
bool vc_bool();
float* vc_floats(std::size_t n, std::size_t per); // n elements of `per` (1 or 2) arbitrary floats each
void vc_assume(bool);
void vc_assert_at(bool, const char*);
void vc_eq_at(float a, float b, float scale, const char*);   // proof: a == b exactly; native: within rounding of scale
void vc_le_at(float a, float b, float scale, const char*);   // proof: a <= b exactly
void vc_cover_at(const char*);
float vc_forall_index(std::size_t n);
bool vc_proof();
}
#define vc_assert(c, name) vc_assert_at((c), name)
#define vc_eq(a, b, name) vc_eq_at((a), (b), 1.f, name)
#define vc_eqs(a, b, scale, name) vc_eq_at((a), (b), (scale), name)
#define vc_le(a, b, name) vc_le_at((a), (b), 1.f, name)
#define vc_les(a, b, scale, name) vc_le_at((a), (b), (scale), name)
#define vc_cover(name) vc_cover_at(name)

static inline void vc_eqs_at2(float a, float b, float c, float d, float scale, const char* name)
{
    vc_eq_at(a, b, scale, name);
    vc_eq_at(c, d, scale, name);
}

#ifdef VC_PROOF
#define VC_REG(name, bounded)
#else
struct VcReg { VcReg(const char*, void (*)(), bool); };
#define VC_REG(name, bounded) static VcReg vc_reg_##name(#name, vc_contract_##name, bounded);
#endif
// VC_CONTRACT(Cnn_name, options...): proved for all inputs.  VC_BOUNDED: native bounded stand-in, never counted as proved.
#define VC_CONTRACT(name, ...) extern "C" void vc_contract_##name(); VC_REG(name, false) extern "C" __attribute__((noinline)) void vc_contract_##name()
#define VC_BOUNDED(name, ...) extern "C" void vc_contract_##name(); VC_REG(name, true) extern "C" __attribute__((noinline)) void vc_contract_##name()
// VC_STUB(name): callee contract (assert precondition, havoc, assume postcondition)
#define VC_STUB extern "C" __attribute__((noinline, used))

template <class F> inline bool vc_throws_any(F&& f)
{
    try { f(); return false; }
    catch (const std::exception&) { return true; }
}
