"""P15: casts between element types."""
from engine import Job
from p14 import LSYM, THR, IGN

INTS = [('u8', 8, 0), ('u16', 16, 0), ('u32', 32, 0), ('u64', 64, 0), ('i8', 8, 1), ('i16', 16, 1), ('i32', 32, 1), ('i64', 64, 1)]
SMALL = [('f8e4m3', 'uint8_t'), ('f8e5m2', 'uint8_t'), ('bf16', 'uint16_t'), ('f16', 'uint16_t')]
ALL = ['bool'] + [s for s, _ in SMALL] + ['f32', 'f64'] + [t for t, _, _ in INTS]
CT = {'bool': 'uint8_t', 'f32': 'float', 'f64': 'double', **dict(SMALL), **{t: f'{"int" if s else "uint"}{w}_t' for t, w, s in INTS}}
WID = {t: (w, s) for t, w, s in INTS}
SM = dict(SMALL)

REF = '''
#include <math.h>
static inline float b2f(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline double b2d(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static inline uint32_t f2b(float f) { uint32_t b; memcpy(&b, &f, 4); return f != f ? 0x7FC00000 : b; }
static inline uint64_t d2b(double f) { uint64_t b; memcpy(&b, &f, 8); return f != f ? 0x7FF8000000000000ull : b; }
static inline int nan_f8e4m3(unsigned c) { return (c & 0x7F) == 0x7F; }
static inline int nan_f8e5m2(unsigned c) { return (c & 0x7F) > 0x7C; }
static inline int nan_bf16(unsigned c) { return (c & 0x7FFF) > 0x7F80; }
static inline int nan_f16(unsigned c) { return (c & 0x7FFF) > 0x7C00; }
'''

def fl(f):
    return f in SM or f in ('f32', 'f64')

def value(f, x):
    """C expression of the number denoted by x of type f"""
    return f'{f}_to_float({x})' if f in SM else f'({x} != 0)' if f == 'bool' else x

def expect(f, t, x):
    """(condition under which the result is specified, expected result)"""
    v = value(f, x)
    if t == 'bool':
        return '1', f'(uint8_t)({v} != 0)'
    if t in SM:
        return '1', x if f == t else f'float_to_{t}((float)({v}))'
    if t in ('f32', 'f64'):
        return '1', f'({CT[t]})({v})'
    w, s = WID[t]
    if fl(f):
        # truncation toward zero, wherever the truncated value is one of the destination's
        d = f'({v})'
        lo = f'{d} > {-1 if not s else f"(-0x1p{w - 1} - 1)"}' if w < 64 or not s else f'{d} >= -0x1p63'
        hi = f'{d} < 0x1p{w - s}'
        return f'({lo} && {hi})', f'({CT[t]})({v})'
    return '1', f'({CT[t]})(uint64_t)({v})'

def same(t, got, ref):
    if t == 'f32':
        return f'f2b({got}) == f2b({ref})'
    if t == 'f64':
        return f'd2b({got}) == d2b({ref})'
    if t in SM:
        return f'({got} == {ref} || (nan_{t}({got}) && nan_{t}({ref})))'
    return f'{got} == {ref}'

def any_(f, x):
    if f == 'f32':
        return f'    float {x} = b2f((uint32_t)nd());\n'
    if f == 'f64':
        return f'    double {x} = b2d(nd());\n'
    return f'    {CT[f]} {x} = ({CT[f]})nd();\n'

def check(f, t, o, i, x, what=''):
    c, e = expect(f, t, x)
    return f' CHECK(!{c} || {same(t, f"{o}[{i}]", e)}, "cast {f} to {t}{what}");'

SMI = '#include "types.h"\n#include "utils.h"\n'
# encoding and decoding of the small formats are decided under P16: in the solver they are any functions at all
UNI = ''.join(f'''#ifdef __CPROVER
float __CPROVER_uninterpreted_dec_{n}(uint16_t);
uint16_t __CPROVER_uninterpreted_enc_{n}(uint32_t);
static float u_dec_{n}({c} c) {{ return __CPROVER_uninterpreted_dec_{n}(c); }}
static {c} u_enc_{n}(float f) {{ return ({c})__CPROVER_uninterpreted_enc_{n}(f2b(f)); }}
#endif
''' for n, c in SMALL)
KEEP = '#ifdef __CPROVER\n' + ''.join(f'    (void)u_dec_{n}(0); (void)u_enc_{n}(0);\n' for n, _ in SMALL) + '#endif\n'
REP = [x for n, _ in SMALL for x in (f'{n}_to_float:u_dec_{n}', f'float_to_{n}:u_enc_{n}')]
CIGN = IGN + [r'arithmetic overflow on floating', r'NaN on', r'arithmetic overflow on (un)?signed', 'typecast', 'overflow']

def jobs(tier):
    js = []
    th = tier == 'thorough'
    def emit(name, body, fns, bd, pre='', **kw):
        js.append(Job(name, SMI + REF + UNI + pre + '#include "ops_cast.c"\nint main(void) {\n' + KEEP + body + '    return 0;\n}\n', fns, bd, ignore=CIGN, replace=REP, **kw))
    for f in ALL:
        groups = (('int', [t for t, _, _ in INTS] + ['bool']), ('float', ['f32', 'f64']), ('small', [s for s, _ in SMALL]))
        for g, ts in groups:
            body = any_(f, 'x0') + any_(f, 'x1') + f'    {CT[f]} A[4] = {{x1, x0, x1, x0}}, C[5] = {{x0, x1, x1, x1, x0}};\n'
            for t in ts:
                body += f'    {{ {CT[t]} O[3] = {{1, 1, 77}};\n'
                for b, m, (p, q) in (('A', '2, 1, 2, 1, 1', ('x0', 'x1')), ('C', '2, 1, 2, 3, 1', ('x1', 'x0'))):
                    body += f'        {{ size_t m[5] = {{{m}}}; hodu_cpu_cast_{f}_to_{t}({b}, O, m);' + check(f, t, 'O', 0, p) + check(f, t, 'O', 1, q) + ' }\n'
                body += f'        CHECK(O[2] == 77, "cast {f} to {t} writes past its output"); }}\n'
            emit(f'values/{f}/{g}', body, [f'hodu_cpu_cast_{f}_to_{t}' for t in ts], 'every bit pattern of the source type; two elements, contiguous and strided, at an offset; small formats through uninterpreted encoders (P16 decides them)', unwind=4, backend='smt+z3+sat', timeout=120)
        # threads
        k = ALL.index(f)
        for t in [ALL[(k + n) % 15] for n in ((3, 7, 5, 12) if th else (3, 7))]:
            for nt in (2,) if '64' in f and '64' in t else (2, 3):
                body = f'    NT = {nt};\n' + ''.join(any_(f, f'x{i}') for i in range(4)) + f'    {CT[f]} A[5] = {{x0, x0, x1, x2, x3}};\n    size_t n = below(5), md[5] = {{n, 1, n, 1, 1}};\n'
                body += f'    {CT[t]} O[5] = {{1, 1, 1, 1, 1}}; O[n] = 77;\n    hodu_cpu_cast_{f}_to_{t}(A, O, md);\n' + ''.join(f'    if ({i} < n) {{' + check(f, t, 'O', i, f'x{i}', ' threads') + ' }\n' for i in range(4)) + f'    CHECK(O[n] == 77, "cast {f} to {t} threads write past the output");\n'
                emit(f'threads/{f}_to_{t}/{nt}', body, [f'hodu_cpu_cast_{f}_to_{t}'], f'{nt} threads in any of the explored orders, 0..4 elements, every bit pattern', pre=THR, unwind=7, backend='smt+z3+sat', timeout=200)
    for f, t in (('u8', 'u16'), ('i16', 'i8'), ('u16', 'bool'), ('bool', 'i32')):
        for r in (0, 1, 2, 3) if th else (0, 1, 2):
            js.append(Job(f'layout/{f}_to_{t}/rank{r}', f'#define ND {r}\n' + LSYM + f'static {CT[f]} L[LN]; static {CT[t]} out[LN];\n' + SMI + '#include "ops_cast.c"\n' + f'''int main(void) {{
    for (int i = 0; i < LN; i++) L[i] = ({CT[f]})nd();
    size_t n = meta(0);
    hodu_cpu_cast_{f}_to_{t}(L, out, md);
    size_t i = below(n);
    CHECK(out[i] == {expect(f, t, "L[pos(i, ls, lo)]")[1]}, "cast {f} to {t} layout");
    return 0;\n}}\n''', [f'hodu_cpu_cast_{f}_to_{t}'], f'rank {r}, extents 1..3 (1..2 at rank 3), strides 0..4, offset 0..3, all symbolic', unwind=26, ignore=CIGN, timeout=200))
    return sorted(js, key=lambda j: not j.name.startswith(('layout', 'threads')))
