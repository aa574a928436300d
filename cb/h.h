// shared by all harnesses: symbolic inputs under CBMC, recorded values on replay
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifdef __CPROVER
uint64_t nondet_u64(void);
float nondet_f32(void);
double nondet_f64(void);
uint64_t nd_log[ND_MAX];
unsigned nd_n;
static inline uint64_t nd(void) {
    uint64_t v = nondet_u64();
    nd_log[nd_n++] = v;
    return v;
}
// exact stand-ins for the library functions the kernels scale with
static inline double cb_pow2(int e) {
    uint64_t b = e < -1022 ? 0 : e > 1023 ? 0x7FF0000000000000ull : (uint64_t)(e + 1023) << 52;
    double d;
    memcpy(&d, &b, 8);
    return d;
}
static inline float cb_ldexpf(float m, int e) { return (float)((double)m * cb_pow2(e)); }
static inline float cb_frexpf(float x, int *e) {
    uint32_t b;
    int k = 0;
    memcpy(&b, &x, 4);
    *e = 0;
    if ((b & 0x7FFFFFFF) == 0 || (b & 0x7F800000) == 0x7F800000) return x;
    if ((b & 0x7F800000) == 0) { x = x * 16777216.0f; memcpy(&b, &x, 4); k = 24; }
    *e = (int)((b >> 23) & 0xFF) - 126 - k;
    b = (b & 0x807FFFFF) | 0x3F000000;
    memcpy(&x, &b, 4);
    return x;
}
#include <math.h>
#undef ldexpf
#undef frexpf
#define ldexpf(m, e) cb_ldexpf(m, e)
#define frexpf(x, e) cb_frexpf(x, e)
#ifdef LIBM_UF
// library functions as uninterpreted functions: any function at all, the same one on both sides
float __CPROVER_uninterpreted_expf(float);
static inline float u_expf(float x) { return __CPROVER_uninterpreted_expf(x); }
#undef expf
#define expf(x) u_expf(x)
float __CPROVER_uninterpreted_exp2f(float);
static inline float u_exp2f(float x) { return __CPROVER_uninterpreted_exp2f(x); }
#undef exp2f
#define exp2f(x) u_exp2f(x)
float __CPROVER_uninterpreted_exp10f(float);
static inline float u_exp10f(float x) { return __CPROVER_uninterpreted_exp10f(x); }
#undef exp10f
#define exp10f(x) u_exp10f(x)
float __CPROVER_uninterpreted_logf(float);
static inline float u_logf(float x) { return __CPROVER_uninterpreted_logf(x); }
#undef logf
#define logf(x) u_logf(x)
float __CPROVER_uninterpreted_log2f(float);
static inline float u_log2f(float x) { return __CPROVER_uninterpreted_log2f(x); }
#undef log2f
#define log2f(x) u_log2f(x)
float __CPROVER_uninterpreted_log10f(float);
static inline float u_log10f(float x) { return __CPROVER_uninterpreted_log10f(x); }
#undef log10f
#define log10f(x) u_log10f(x)
float __CPROVER_uninterpreted_sinf(float);
static inline float u_sinf(float x) { return __CPROVER_uninterpreted_sinf(x); }
#undef sinf
#define sinf(x) u_sinf(x)
float __CPROVER_uninterpreted_cosf(float);
static inline float u_cosf(float x) { return __CPROVER_uninterpreted_cosf(x); }
#undef cosf
#define cosf(x) u_cosf(x)
float __CPROVER_uninterpreted_tanf(float);
static inline float u_tanf(float x) { return __CPROVER_uninterpreted_tanf(x); }
#undef tanf
#define tanf(x) u_tanf(x)
float __CPROVER_uninterpreted_asinf(float);
static inline float u_asinf(float x) { return __CPROVER_uninterpreted_asinf(x); }
#undef asinf
#define asinf(x) u_asinf(x)
float __CPROVER_uninterpreted_acosf(float);
static inline float u_acosf(float x) { return __CPROVER_uninterpreted_acosf(x); }
#undef acosf
#define acosf(x) u_acosf(x)
float __CPROVER_uninterpreted_atanf(float);
static inline float u_atanf(float x) { return __CPROVER_uninterpreted_atanf(x); }
#undef atanf
#define atanf(x) u_atanf(x)
float __CPROVER_uninterpreted_sinhf(float);
static inline float u_sinhf(float x) { return __CPROVER_uninterpreted_sinhf(x); }
#undef sinhf
#define sinhf(x) u_sinhf(x)
float __CPROVER_uninterpreted_coshf(float);
static inline float u_coshf(float x) { return __CPROVER_uninterpreted_coshf(x); }
#undef coshf
#define coshf(x) u_coshf(x)
float __CPROVER_uninterpreted_tanhf(float);
static inline float u_tanhf(float x) { return __CPROVER_uninterpreted_tanhf(x); }
#undef tanhf
#define tanhf(x) u_tanhf(x)
float __CPROVER_uninterpreted_asinhf(float);
static inline float u_asinhf(float x) { return __CPROVER_uninterpreted_asinhf(x); }
#undef asinhf
#define asinhf(x) u_asinhf(x)
float __CPROVER_uninterpreted_acoshf(float);
static inline float u_acoshf(float x) { return __CPROVER_uninterpreted_acoshf(x); }
#undef acoshf
#define acoshf(x) u_acoshf(x)
float __CPROVER_uninterpreted_atanhf(float);
static inline float u_atanhf(float x) { return __CPROVER_uninterpreted_atanhf(x); }
#undef atanhf
#define atanhf(x) u_atanhf(x)
float __CPROVER_uninterpreted_erff(float);
static inline float u_erff(float x) { return __CPROVER_uninterpreted_erff(x); }
#undef erff
#define erff(x) u_erff(x)
float __CPROVER_uninterpreted_sqrtf(float);
static inline float u_sqrtf(float x) { return __CPROVER_uninterpreted_sqrtf(x); }
#undef sqrtf
#define sqrtf(x) u_sqrtf(x)
float __CPROVER_uninterpreted_ceilf(float);
static inline float u_ceilf(float x) { return __CPROVER_uninterpreted_ceilf(x); }
#undef ceilf
#define ceilf(x) u_ceilf(x)
float __CPROVER_uninterpreted_floorf(float);
static inline float u_floorf(float x) { return __CPROVER_uninterpreted_floorf(x); }
#undef floorf
#define floorf(x) u_floorf(x)
float __CPROVER_uninterpreted_roundf(float);
static inline float u_roundf(float x) { return __CPROVER_uninterpreted_roundf(x); }
#undef roundf
#define roundf(x) u_roundf(x)
float __CPROVER_uninterpreted_powf(float, float);
static inline float u_powf(float x, float y) { return __CPROVER_uninterpreted_powf(x, y); }
#undef powf
#define powf(x, y) u_powf(x, y)
float __CPROVER_uninterpreted_fmodf(float, float);
static inline float u_fmodf(float x, float y) { return __CPROVER_uninterpreted_fmodf(x, y); }
#undef fmodf
#define fmodf(x, y) u_fmodf(x, y)
#endif
#undef isfinite
#define isfinite(x) __CPROVER_isfinitef(x)
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, m) __CPROVER_assert(c, "PROP " m)
#else
#include <stdio.h>
static uint64_t nd_log[] = {ND_VALUES};
static unsigned nd_n;
static inline uint64_t nd(void) { return nd_n < sizeof nd_log / 8 ? nd_log[nd_n++] : 0; }
#define ASSUME(c) do { if (!(c)) exit(77); } while (0)
#define CHECK(c, m) do { if (!(c)) { printf("FAILS %s\n", m); fflush(stdout); exit(1); } } while (0)
#define __CPROVER_assume(c) ASSUME(c)
#endif
// a symbolic number below n
static inline size_t below(size_t n) {
    size_t v = nd();
    ASSUME(v < n);
    return v;
}
