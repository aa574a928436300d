"""P16: small float formats: decoding, encoding and arithmetic."""
from engine import Job

# name, bits of mantissa, bias, largest finite magnitude, has infinity, saturates
FMT = [('f16', 10, 15, 0x7BFF, 1, 0, 16), ('bf16', 7, 127, 0x7F7F, 1, 0, 16), ('f8e4m3', 3, 7, 0x7E, 0, 1, 8), ('f8e5m2', 2, 15, 0x7B, 1, 1, 8)]

# the formats by definition, on the bit patterns alone
REF = '''
#include <math.h>
static inline uint32_t f2b(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static inline float b2f(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
// bit pattern of the f32 that the finite magnitude `c` of a format with `mb` mantissa bits denotes
static inline uint32_t dec_bits(uint32_t c, int mb, int bias) {
    uint32_t e = c >> mb, m = c & ((1u << mb) - 1);
    if (bias == 127) return c << (23 - mb);
    if (e == 0) {
        if (m == 0) return 0;
        int k = 0;
        for (int i = 0; i <= mb; i++) if (!(m >> mb)) { m <<= 1; k++; }
        return ((uint32_t)(127 - bias + 1 - k) << 23) | ((m & ((1u << mb) - 1)) << (23 - mb));
    }
    return ((e - bias + 127) << 23) | (m << (23 - mb));
}
static inline int nan32(uint32_t b) { return (b & 0x7FFFFFFF) > 0x7F800000; }
#define SIGN ((1u << (W - 1)))
#define MAG (SIGN - 1)
#define INFC ((uint32_t)(MAXF + 1))
static inline int isnan_c(uint32_t c) { c &= MAG; return HASINF ? c > INFC : c > MAXF; }
// is `c` the right encoding of the f32 with bit pattern `b`
static inline int right(uint32_t c, uint32_t b) {
    uint32_t m = c & MAG, x = b & 0x7FFFFFFF;
    if (nan32(b)) return isnan_c(c);
    if (isnan_c(c)) return 0;
    if ((b >> 31) != ((c & SIGN) != 0)) return 0;
    if (x == 0x7F800000) return m == (HASINF ? INFC : (uint32_t)MAXF);
    if (HASINF && m == INFC) return !SAT && x >= dec_bits(2u * MAXF + 1, MB + 1, BIAS);
    uint32_t hi = dec_bits(2 * m + 1, MB + 1, BIAS), lo = m ? dec_bits(2 * m - 1, MB + 1, BIAS) : 0;
    if (m == (uint32_t)MAXF) { if (!SAT && x >= hi) return 0; }
    else if (x > hi || (x == hi && (m & 1))) return 0;
    return m == 0 || x > lo || (x == lo && !(m & 1));
}
// the f32 a code denotes, as a bit pattern (any NaN as one)
static inline uint32_t value(uint32_t c) {
    if (isnan_c(c)) return 0x7FC00000;
    uint32_t s = (c & SIGN) ? 0x80000000u : 0, m = c & MAG;
    if (HASINF && m == INFC) return s | 0x7F800000;
    return s | dec_bits(m, MB, BIAS);
}
static inline uint32_t canon(float f) { uint32_t b = f2b(f); return nan32(b) ? 0x7FC00000 : b; }
'''

def jobs(tier):
    js = []
    for n, mb, bias, mx, inf, sat, w in FMT:
        pre = f'#define MB {mb}\n#define BIAS {bias}\n#define MAXF {mx}\n#define HASINF {inf}\n#define SAT {sat}\n#define W {w}\n' + REF + '#include "types.h"\n#include "utils.h"\n' + f'#include "t_{n}.h"\n'
        def emit(job, body, fns, bd, inc='', unwind=14, timeout=60, backend='sat+z3', replace=()):
            js.append(Job(f'{n}/{job}', pre + inc + f'static float ref_dec({n}_t c) {{ return b2f(value(c)); }}\nint main(void) {{\n    (void)ref_dec(0);\n' + body + '    return 0;\n}\n', fns, bd, unwind=unwind, timeout=timeout, backend=backend, replace=replace, ignore=[r'arithmetic overflow on floating', r'NaN on', r'arithmetic overflow on (un)?signed', 'shift', 'typecast']))
        emit('decode', f'    uint32_t c = (uint32_t)below(1u << W);\n    CHECK(canon({n}_to_float(({n}_t)c)) == value(c), "{n} decoding");\n', [f'{n}_to_float'], f'all {1 << w} encodings')
        emit('encode', f'    uint32_t b = (uint32_t)below(1ull << 32);\n    CHECK(right(float_to_{n}(b2f(b)), b), "{n} encoding");\n', [f'float_to_{n}'], 'all 2^32 f32 bit patterns')
        emit('roundtrip', f'    uint32_t c = (uint32_t)below(1u << W);\n    ASSUME(!isnan_c(c));\n    CHECK(float_to_{n}({n}_to_float(({n}_t)c)) == c, "{n} round trip");\n', [f'{n}_to_float', f'float_to_{n}'], 'all encodings except NaN')
        emit('constants', f'    CHECK(value({n.upper()}_ZERO) == 0 && value({n.upper()}_ONE) == 0x3F800000, "{n} constants");\n' + (f'    CHECK(value({n.upper()}_NEG_INF) == 0xFF800000 && value({n.upper()}_POS_INF) == 0x7F800000, "{n} infinities");\n' if inf and not sat else ''), [], 'constants', unwind=14)
        AB = f'    uint32_t a = (uint32_t)below(1u << W), b = (uint32_t)below(1u << W);\n    float x = b2f(value(a)), y = b2f(value(b));\n'
        for op, e in (('add', 'x + y'), ('sub', 'x - y'), ('mul', 'x * y'), ('div', 'x / y')):
            # decoding is decided above: here the definition takes its place
            emit(op, AB + f'    CHECK(right({n}_{op}(({n}_t)a, ({n}_t)b), f2b({e})), "{n}_{op}");\n', [f'{n}_{op}'], 'all pairs of encodings', timeout=90, backend='sat+z3', replace=[f'{n}_to_float:ref_dec'])
            if op in ('mul', 'div'):
                js[-1].backend = 'z3+sat'
        emit('compare', AB + ''.join(f'    CHECK({n}_{op}(({n}_t)a, ({n}_t)b) == (x {s} y), "{n}_{op}");\n' for op, s in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='))), [f'{n}_{o}' for o in ('lt', 'le', 'gt', 'ge', 'eq')], 'all pairs of encodings')
        emit('choose', AB + f'    ASSUME(!isnan_c(a) && !isnan_c(b));\n    CHECK(value({n}_max(({n}_t)a, ({n}_t)b)) == f2b(x > y ? x : y) || x == y && f2b(x) != f2b(y), "{n}_max");\n    CHECK(value({n}_min(({n}_t)a, ({n}_t)b)) == f2b(x < y ? x : y) || x == y && f2b(x) != f2b(y), "{n}_min");\n    CHECK(value({n}_abs(({n}_t)a)) == (f2b(x) & 0x7FFFFFFF), "{n}_abs");\n    CHECK(value({n}_neg(({n}_t)a)) == (f2b(x) ^ 0x80000000), "{n}_neg");\n', [f'{n}_{o}' for o in ('max', 'min', 'abs', 'neg')], 'all pairs of encodings except NaN')
        # the kernels: decoding, f32 function, encoding, in every element and layout
        D = f'{n}_to_float'
        En = f'float_to_{n}'
        kp = f"""typedef {n}_t ty;
// in the solver encoding and decoding are any functions at all (their own jobs decide them), on replay the real ones;
// on replay the results of composed functions may differ in rounding
#ifdef __CPROVER
float __CPROVER_uninterpreted_dec(uint16_t);
uint16_t __CPROVER_uninterpreted_enc(uint32_t);
static float u_dec(ty c) {{ return __CPROVER_uninterpreted_dec(c); }}
static ty u_enc(float f) {{ return (ty)__CPROVER_uninterpreted_enc(f2b(f)); }}
#define SAME(r, s) ((r) == (s))
#define NEAR(r, s) ((r) == (s))
#else
#define SAME(r, s) ((r) == (s) || isnan_c(r) && isnan_c(s))
static int near(ty r, ty s) {{ float x = {D}(r), y = {D}(s); return r == s || isnan_c(r) && isnan_c(s) || fabsf(x - y) <= 0.3f * fabsf(y) + 0.01f || isinf(x) && fabsf(y) > MAXF; }}
#define NEAR(r, s) near(r, s)
#endif
"""
        OP = """    ty x0 = (ty)nd(), x1 = (ty)nd(), y0 = (ty)nd(), y1 = (ty)nd(), z = (ty)nd(), S = (ty)nd();
    ty A[4] = {z, x0, x1, z}, B[4] = {z, z, y0, y1}, C[4] = {x0, z, x1, z}, E[5] = {z, y0, z, z, y1}, O[3] = {1, 2, 77};
    uint8_t P[3] = {1, 2, 77};
    (void)A; (void)B; (void)C; (void)E; (void)O; (void)P; (void)S; (void)y0; (void)y1;
#ifdef __CPROVER
    (void)u_dec(0); (void)u_enc(0);
#endif
"""
        rep = [f'{D}:u_dec', f'{En}:u_enc']
        def sub(e, x, y=None):
            return e.replace('X', f'{D}({x})').replace('Y', f'{D}({y})')
        def binary(op, e, bool_):
            o = 'P' if bool_ else 'O'
            r = ''
            for l, rr, m in (('A', 'B', '2, 1, 2, 2, 1, 1, 1, 2'), ('A', 'E', '2, 1, 2, 2, 1, 3, 1, 1'), ('C', 'B', '2, 1, 2, 2, 2, 1, 0, 2'), ('C', 'E', '2, 1, 2, 2, 2, 3, 0, 1')):
                r += f'    {{ size_t m[8] = {{{m}}}; hodu_cpu_{op}_{n}({l}, {rr}, {o}, m);'
                for i in (0, 1):
                    v = sub(e, f'x{i}', f'y{i}')
                    r += f' CHECK({f"{o}[{i}] == ({v})" if bool_ else f"SAME({o}[{i}], {En}({v}))"}, "{op}_{n}");'
                r += ' }\n'
            return r + f'    CHECK({o}[2] == 77, "{op}_{n} writes past its output");\n'
        def unary(op, e, bool_, sc='', cmp='SAME'):
            o = 'P' if bool_ else 'O'
            r = ''
            for l, m in (('A', '2, 1, 2, 1, 1'), ('C', '2, 1, 2, 2, 0')):
                r += f'    {{ size_t m[5] = {{{m}}}; hodu_cpu_{op}_{n}({l}, {o}, m{sc});'
                for i in (0, 1):
                    v = sub(e, f'x{i}', 'S')
                    r += f' CHECK({f"{o}[{i}] == ({v})" if bool_ else f"{cmp}({o}[{i}], {En}({v}))"}, "{op}_{n}");'
                r += ' }\n'
            return r + f'    CHECK({o}[2] == 77, "{op}_{n} writes past its output");\n'
        ar = [('add', 'X + Y'), ('sub', 'X - Y'), ('mul', 'X * Y'), ('div', 'X / Y'), ('rem', 'fmodf(X, Y)'), ('pow', 'powf(X, Y)'), ('maximum', 'X > Y ? X : Y'), ('minimum', 'X < Y ? X : Y')]
        cm = [('eq', 'X == Y'), ('ne', 'X != Y'), ('lt', 'X < Y'), ('le', 'X <= Y'), ('gt', 'X > Y'), ('ge', 'X >= Y')]
        lg = [('logical_and', 'X != 0.0f && Y != 0.0f'), ('logical_or', 'X != 0.0f || Y != 0.0f'), ('logical_xor', '(X != 0.0f) != (Y != 0.0f)')]
        un = [('neg', '-X'), ('abs', 'fabsf(X)'), ('sign', 'X > 0.0f ? 1.0f : X < 0.0f ? -1.0f : 0.0f'), ('square', 'X * X'), ('sqrt', 'sqrtf(X)'), ('recip', '1.0f / X'), ('relu', 'X > 0.0f ? X : 0.0f')] + \
            [(f, f'{c}f(X)') for f, c in [(k, k) for k in 'sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 exp10 log2 log10 ceil floor round erf'.split()] + [('ln', 'log')]]
        co = [('softsign', 'X / (1.0f + fabsf(X))'), ('sigmoid', '1.0f / (1.0f + expf(-X))'), ('softplus', 'logf(1.0f + expf(X))'), ('silu', 'X / (1.0f + expf(-X))'), ('mish', 'X * tanhf(logf(1.0f + expf(X)))'),
              ('gelu', '0.5f * X * (1.0f + tanhf(0.7978845608f * (X + 0.044715f * X * X * X)))'), ('selu', '1.0507009873554804934193349852946f * (X > 0.0f ? X : 1.6732632423543772848170429916717f * (expf(X) - 1.0f))')]
        ub = [('logical_not', 'X == 0.0f'), ('isnan', 'isnan(X) != 0'), ('isinf', 'isinf(X) != 0'), ('isfinite', 'isfinite(X) != 0')]
        sc = ', &S'
        def k(group, f, fs, body):
            emit('kernel/' + group, OP + body, [f'hodu_cpu_{o}_{n}' for o in fs], 'every encoding; two elements, contiguous and strided; library functions uninterpreted', inc=kp + f'#include "{f}"\n', replace=rep, backend='smt+z3+sat')
            js[-1].cflags = ['-DLIBM_UF']
        k('binary', 'ops_binary.c', [o for o, _ in ar], ''.join(binary(o, e, 0) for o, e in ar))
        k('compare', 'ops_binary.c', [o for o, _ in cm + lg], ''.join(binary(o, e, 1) for o, e in cm + lg))
        k('unary', 'ops_unary.c', [o for o, _ in un + ub], ''.join(unary(o, e, 0) for o, e in un) + ''.join(unary(o, e, 1) for o, e in ub))
        for o, e in co:
            k('activation/' + o, 'ops_unary.c', [o], unary(o, e, 0, cmp='NEAR'))
        k('scalar/compare', 'ops_unary.c', [o + '_scalar' for o, _ in cm], ''.join(unary(o + '_scalar', e, 1, sc) for o, e in cm))
        for o, e in ar:
            k('scalar/' + o, 'ops_unary.c', [o + '_scalar'], unary(o + '_scalar', e, 0, sc))
        for o, e in (('leaky_relu', 'X > 0.0f ? X : Y * X'), ('prelu', 'X > 0.0f ? X : Y * X'), ('elu', 'X > 0.0f ? X : Y * (expf(X) - 1.0f)')):
            k('scalar/' + o, 'ops_unary.c', [o], unary(o, e, 0, sc, 'NEAR'))
    return js
