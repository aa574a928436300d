"""P14: integer and bitwise kernels."""
from engine import Job
BIN = ['add', 'sub', 'mul', 'div', 'rem', 'maximum', 'minimum']
TOB = ['logical_and', 'logical_or', 'logical_xor', 'eq', 'ne', 'lt', 'le', 'gt', 'ge']
TYPES = [('u8', 8, 0), ('u16', 16, 0), ('u32', 32, 0), ('u64', 64, 0), ('i8', 8, 1), ('i16', 16, 1), ('i32', 32, 1), ('i64', 64, 1)]

def ty(t, w, s):
    return f'typedef {"int" if s else "uint"}{w}_t ty; typedef uint{w}_t uty; typedef uint8_t boolt;\n'

REF = '''
#define WRAP(e) ((ty)(uty)(e))
#define REF_add(x, y) WRAP((uty)(x) + (uty)(y))
#define REF_sub_s(x, y) WRAP((uty)(x) - (uty)(y))
#define REF_sub_u(x, y) ((x) > (y) ? WRAP((uty)(x) - (uty)(y)) : (ty)0)
#define REF_mul(x, y) WRAP((uint64_t)(uty)(x) * (uint64_t)(uty)(y))
#define REF_div_s(x, y) ((y) == 0 ? (ty)0 : (y) == -1 ? WRAP((uty)0 - (uty)(x)) : (ty)((x) / (y)))
#define REF_div_u(x, y) ((y) == 0 ? (ty)0 : (ty)((x) / (y)))
#define REF_rem_s(x, y) ((y) == 0 || (y) == -1 ? (ty)0 : (ty)((x) % (y)))
#define REF_rem_u(x, y) ((y) == 0 ? (ty)0 : (ty)((x) % (y)))
#define REF_maximum(x, y) ((x) < (y) ? (y) : (x))
#define REF_minimum(x, y) ((y) < (x) ? (y) : (x))
#define REF_logical_and(x, y) ((x) != 0 && (y) != 0)
#define REF_logical_or(x, y) ((x) != 0 || (y) != 0)
#define REF_logical_xor(x, y) (((x) != 0) != ((y) != 0))
#define REF_eq(x, y) ((x) == (y))
#define REF_ne(x, y) (!((x) == (y)))
#define REF_lt(x, y) ((x) < (y))
#define REF_le(x, y) (!((y) < (x)))
#define REF_gt(x, y) ((y) < (x))
#define REF_ge(x, y) (!((x) < (y)))
#define REF_bitwise_and(x, y) ((ty)((x) & (y)))
#define REF_bitwise_or(x, y) ((ty)((x) | (y)))
#define REF_bitwise_xor(x, y) ((ty)((x) ^ (y)))
#define REF_shl(x, y) WRAP((uty)(x) << (y))
#define REF_shr(x, y) ((ty)((x) >> (y)))
#define REF_neg(x) WRAP((uty)0 - (uty)(x))
#define REF_abs(x) ((x) < 0 ? WRAP((uty)0 - (uty)(x)) : (ty)(x))
#define REF_sign(x) ((ty)((x) > 0 ? 1 : (x) < 0 ? -1 : 0))
#define REF_square(x) WRAP((uint64_t)(uty)(x) * (uint64_t)(uty)(x))
#define REF_relu(x) ((ty)((x) > 0 ? (x) : 0))
#define REF_logical_not(x) ((x) == 0)
#define REF_bitwise_not(x) ((ty)~(x))
static ty L[LN], R[LN];
static ty out[LN];
static boolt bout[LN];
'''
# operands of two elements, contiguous and strided, at an offset; the other places of the buffers hold other symbolic values
OPND = '''    ty x0 = (ty)nd(), x1 = (ty)nd(), y0 = (ty)nd(), y1 = (ty)nd(), z = (ty)nd();
    ty A[4] = {z, x0, x1, z}, B[4] = {z, z, y0, y1}, C[4] = {x0, z, x1, z}, D[5] = {z, y0, z, z, y1}, O[3] = {1, 2, 77};
    uint8_t P[3] = {1, 2, 77};
    ty rev[4] = {x1, z, x0, z};
    (void)rev;
'''

def body_bin(op, t, ref, o, cond='%s'):
    s = ''
    for l, r, m in (('A', 'B', '2, 1, 2, 2, 1, 1, 1, 2'), ('A', 'D', '2, 1, 2, 2, 1, 3, 1, 1'), ('C', 'B', '2, 1, 2, 2, 2, 1, 0, 2'), ('C', 'D', '2, 1, 2, 2, 2, 3, 0, 1')):
        s += f'    {{ size_t m[8] = {{{m}}}; hodu_cpu_{op}_{t}({l}, {r}, {o}, m); CHECK({cond.replace("%y", "y0") % f"{o}[0] == {ref}(x0, y0)"}, "{op}_{t}"); CHECK({cond.replace("%y", "y1") % f"{o}[1] == {ref}(x1, y1)"}, "{op}_{t}"); }}\n'
    return s + f'    CHECK({o}[2] == 77, "{op}_{t} writes past its output");\n'

def body_un(op, t, ref, o, scalar=None):
    sc = (', S' if 'shl' in op or 'shr' in op else ', &S') if scalar else ''
    r = (lambda x: f'{ref}({x}, S)') if scalar else (lambda x: f'{ref}({x})')
    s = ''
    for l, m in (('A', '2, 1, 2, 1, 1'), ('C', '2, 1, 2, 2, 0')):
        s += f'    {{ size_t m[5] = {{{m}}}; hodu_cpu_{op}_{t}({l}, {o}, m{sc}); CHECK({o}[0] == {r("x0")}, "{op}_{t}"); CHECK({o}[1] == {r("x1")}, "{op}_{t}"); }}\n'
    return s + f'    CHECK({o}[2] == 77, "{op}_{t} writes past its output");\n'

FILL = '    for (int i = 0; i < LN; i++) { L[i] = (ty)nd(); R[i] = (ty)nd(); }\n'

# every place of the buffers holds a different value, so that a result tells which places it came from
TAGS = '    for (int i = 0; i < LN; i++) { L[i] = (ty)(64 * (i + 1)); R[i] = (ty)i; }\n'
# the comparison holds only between one place of each buffer, both symbolic
HOT = '    size_t a_ = below(LN), b_ = below(LN);\n    for (size_t i = 0; i < LN; i++) { L[i] = i == a_ ? 0 : 5; R[i] = i == b_ ? 3 : -5; }\n'
IGN = [r'arithmetic overflow on (signed|unsigned) (\+|-|\*|unary|shl)', 'shift']
# symbolic layout: rank ND, extents, strides and offset symbolic, the index recomputed from the definition
LSYM = '''
#define LN 24
static size_t sh[3], ls[3], rs[3], lo, ro, md[16];
static size_t meta(int two) {
    size_t n = 1, p = 2, el = 0, er = 0;
    for (int d = 0; d < ND; d++) {
        sh[d] = 1 + below(d == 0 && ND < 3 ? 3 : 2);
        ls[d] = below(5);
        n *= sh[d];
        el += (sh[d] - 1) * ls[d];
        if (two) { rs[d] = below(5); er += (sh[d] - 1) * rs[d]; }
    }
    lo = below(4);
    if (two) ro = below(4);
    md[0] = n; md[1] = ND;
    for (int d = 0; d < ND; d++) md[p++] = sh[d];
    if (two) for (int d = 0; d < ND; d++) md[p++] = sh[d];
    for (int d = 0; d < ND; d++) md[p++] = ls[d];
    if (two) for (int d = 0; d < ND; d++) md[p++] = rs[d];
    md[p++] = lo;
    if (two) md[p++] = ro;
    return n;
}
static size_t pos(size_t i, const size_t *st, size_t off) {
    for (int d = ND - 1; d >= 0; d--) { off += (i % sh[d]) * st[d]; i /= sh[d]; }
    return off;
}
'''
# threads: the worker of each chunk runs either at creation or at join (symbolic), over a symbolic number of elements
THR = '''
#include "thread_utils.h"
static size_t NT;
typedef struct { void *(*f)(void *); void *a; int done; } job_t;
static job_t jobs_[4];
static size_t njobs_;
static size_t fake_threads(size_t n, size_t m) { (void)n; (void)m; return NT; }
static int fake_create(thread_t *t, void *(*f)(void *), void *a) {
    jobs_[njobs_].f = f; jobs_[njobs_].a = a; jobs_[njobs_].done = 0;
    if (nd() & 1) { f(a); jobs_[njobs_].done = 1; }
    *t = (thread_t)njobs_++;
    return 0;
}
static int fake_join(thread_t t) {
    // any of the threads still waiting may run first
    if (nd() & 1) for (size_t k = njobs_; k-- > 0;) if (!jobs_[k].done) { jobs_[k].f(jobs_[k].a); jobs_[k].done = 1; }
    size_t k = (size_t)t;
    if (!jobs_[k].done) { jobs_[k].f(jobs_[k].a); jobs_[k].done = 1; }
    return 0;
}
#define get_optimal_threads(n, m) fake_threads(n, m)
#define thread_create(t, f, a) fake_create(t, f, a)
#define thread_join(t) fake_join(t)
'''

def jobs(tier):
    js = []
    th = tier == 'thorough'
    for t, w, s in TYPES:
        sfx = 's' if s else 'u'
        rf = lambda op: 'REF_' + op + ('_' + sfx if op in ('sub', 'div', 'rem') else '')
        bd = 'every operand value; two elements, contiguous and strided operands in all combinations'
        def emit(group, f, names, body, cond=''):
            js.append(Job(f'{group}/{t}', ty(t, w, s) + '#define LN 1\n' + REF + f'#include "{f}"\nint main(void) {{\n' + OPND + body + '    return 0;\n}\n', [f'hodu_cpu_{n}_{t}' for n in names], bd + cond, unwind=9 if group in ('matmul', 'reduce/value', 'reduce/choice') else 4, ignore=IGN))
        for group, ops in (('arith', ['add', 'sub', 'maximum', 'minimum']), ('compare', TOB), ('mul', ['mul']), ('div', ['div']), ('rem', ['rem'])):
            emit('binary/' + group, 'ops_binary.c', ops, ''.join(body_bin(op, t, rf(op), 'P' if op in TOB else 'O') for op in ops))
        bo = ['bitwise_and', 'bitwise_or', 'bitwise_xor', 'shl', 'shr']
        emit('binary/bitwise', 'ops_bitwise.c', bo, ''.join(body_bin(op, t, 'REF_' + op, 'O', f'!((uty)%y < {w}) || %s' if op in ('shl', 'shr') else '%s') for op in bo), ' (shift counts below the width)')
        emit('unary/bitwise', 'ops_bitwise.c', ['bitwise_not', 'shl_scalar', 'shr_scalar'], f'    u32_t S = (u32_t)below({w});\n' + body_un('bitwise_not', t, 'REF_bitwise_not', 'O') + body_un('shl_scalar', t, 'REF_shl', 'O', 1) + body_un('shr_scalar', t, 'REF_shr', 'O', 1), ' (shift counts below the width)')
        un = ['sign', 'abs', 'logical_not', 'square'] + (['neg'] if s else [])
        emit('unary/plain', 'ops_unary.c', un, ''.join(body_un(op, t, 'REF_' + op, 'P' if op == 'logical_not' else 'O') for op in un))
        sc = ['add', 'sub', 'maximum', 'minimum', 'eq', 'ne', 'lt', 'le', 'gt', 'ge']
        for group, c in (('plain', sc), ('mul', ['mul', 'div', 'rem'])):
            emit('scalar/' + group, 'ops_unary.c', [o + '_scalar' for o in c], '    ty S = (ty)nd();\n' + ''.join(body_un(op + '_scalar', t, rf(op), 'P' if op in TOB else 'O', 1) for op in c))
        # reductions over one dimension and over all, cumulative sums, matrix products
        MX = f'{"INT" if s else "UINT"}{w}_MAX'
        body = """    ty v[4] = {x0, x1, y0, y1};
    ty I[6] = {z, x0, x1, z, y0, y1}, J[6] = {z, x0, y0, z, x1, y1};
    size_t m1[12] = {2, 2, 2, 3, 1, 1, 1, 2, 1, 0, 0, 2}, m2[12] = {2, 2, 2, 1, 3, 1, 2, 2, 1, 1, 1, 1, 2};
    size_t m3[12] = {2, 2, 2, 3, 1, 1, 0, 2, 0, 1, 0, 4};
"""
        body = body.replace('m2[12]', 'm2[13]')
        ref = {'sum': lambda a: 'WRAP(' + ' + '.join(f'(uty){x}' for x in a) + ')', 'prod': lambda a: 'WRAP(' + ' * '.join(f'(uint64_t)(uty){x}' for x in a) + ')'}
        def fold(f, a):
            e = a[0]
            for x in a[1:]:
                e = f'{f}({e}, {x})'
            return e
        ref['max'] = lambda a: fold('REF_maximum', a)
        ref['min'] = lambda a: fold('REF_minimum', a)
        for op in ref:
            for buf, m, outs in (('I', 'm1', [['x0', 'y0'], ['x1', 'y1']]), ('J', 'm2', [['x0', 'x1'], ['y0', 'y1']]), ('I', 'm3', [['x0', 'x1', 'y0', 'y1']])):
                body += f'    hodu_cpu_{op}_{t}({buf}, O, {m});\n' + ''.join(f'    CHECK(O[{i}] == {ref[op](a)}, "{op}_{t}");\n' for i, a in enumerate(outs))
        emit('reduce/value', 'ops_reduce.c', list(ref), body + f'    (void)v; CHECK(O[2] == 77, "reduction of {t} writes past its output");\n')
        body2 = body[:body.index('    hodu_cpu_')] + '    int32_t X[3] = {5, 5, 77};\n'
        for op, c in (('argmax', '>='), ('argmin', '<=')):
            d = c[0]
            # a strictly better second place wins, otherwise the first
            body2 += f'    hodu_cpu_{op}_{t}(I, X, m1); CHECK(X[0] == (y0 {d} x0), "{op}_{t}"); CHECK(X[1] == (y1 {d} x1), "{op}_{t}");\n'
            body2 += f'    hodu_cpu_{op}_{t}(J, X, m2); CHECK(X[0] == (x1 {d} x0), "{op}_{t}"); CHECK(X[1] == (y1 {d} y0), "{op}_{t}");\n'
        for op, j in (('any', '||'), ('all', '&&')):
            body2 += f'    hodu_cpu_{op}_{t}(I, P, m1); CHECK(P[0] == (x0 != 0 {j} y0 != 0), "{op}_{t}"); CHECK(P[1] == (x1 != 0 {j} y1 != 0), "{op}_{t}");\n'
            body2 += f'    hodu_cpu_{op}_{t}(J, P, m2); CHECK(P[0] == (x0 != 0 {j} x1 != 0), "{op}_{t}"); CHECK(P[1] == (y0 != 0 {j} y1 != 0), "{op}_{t}");\n'
            body2 += f'    hodu_cpu_{op}_{t}(I, P, m3); CHECK(P[0] == (x0 != 0 {j} x1 != 0 {j} y0 != 0 {j} y1 != 0), "{op}_{t}");\n'
        emit('reduce/choice', 'ops_reduce.c', ['argmax', 'argmin', 'any', 'all'], body2 + '    CHECK(X[2] == 77 && P[2] == 77, "reduction writes past its output");\n')
        emit('scan', 'ops_scan.c', ['cumsum'], f"""    ty Q[6] = {{0, 0, 0, 0, 77, 77}}, I[7] = {{z, x0, z, x1, y0, z, y1}};
    size_t m0[8] = {{4, 2, 2, 2, 3, 2, 1, 0}}, m1[8] = {{4, 2, 2, 2, 3, 2, 1, 1}};
    hodu_cpu_cumsum_{t}(I, Q, m1);
    CHECK(Q[0] == x0 && Q[1] == WRAP((uty)x0 + (uty)x1) && Q[2] == y0 && Q[3] == WRAP((uty)y0 + (uty)y1), "cumsum_{t} along the last dimension");
    hodu_cpu_cumsum_{t}(I, Q, m0);
    CHECK(Q[0] == x0 && Q[1] == x1 && Q[2] == WRAP((uty)x0 + (uty)y0) && Q[3] == WRAP((uty)x1 + (uty)y1), "cumsum_{t} along the first dimension");
    CHECK(Q[4] == 77, "cumsum_{t} writes past its output");
""")
        MM = 'WRAP((uint64_t)(uty){} * (uint64_t)(uty){} + (uint64_t)(uty){} * (uint64_t)(uty){})'
        emit('matmul', 'ops_matrix.c', ['matmul', 'dot'], f"""    ty a[5] = {{z, x0, x1, y0, y1}}, b[5] = {{(ty)nd(), (ty)nd(), (ty)nd(), (ty)nd(), z}}, bt[5] = {{b[0], b[2], b[1], b[3], z}}, c[5] = {{0, 0, 0, 0, 77}};
    size_t m1[17] = {{4, 2, 2, 0, 2, 2, 2, 2, 2, 1, 2, 1, 1, 0, 2, 2, 2}}, m2[17] = {{4, 2, 2, 0, 2, 2, 2, 2, 2, 1, 1, 2, 1, 0, 2, 2, 2}};
    size_t d1[8] = {{2, 2, 2, 2, 1, 2, 1, 0}};
    (void)d1;
    for (int k = 0; k < 2; k++) {{
        hodu_cpu_matmul_{t}(a, k ? bt : b, c, k ? m2 : m1);
        CHECK(c[0] == {MM.format("x0", "b[0]", "x1", "b[2]")} && c[1] == {MM.format("x0", "b[1]", "x1", "b[3]")}, "matmul_{t}");
        CHECK(c[2] == {MM.format("y0", "b[0]", "y1", "b[2]")} && c[3] == {MM.format("y0", "b[1]", "y1", "b[3]")}, "matmul_{t}");
    }}
    CHECK(c[4] == 77, "matmul_{t} writes past its output");
""")
    # symbolic layouts
    fam2 = [('ops_binary.c', 'sub', 'u16', 0, 'out', 'REF_sub_u'), ('ops_binary.c', 'lt', 'i8', 1, 'bout', 'REF_lt'), ('ops_bitwise.c', 'bitwise_xor', 'u16', 0, 'out', 'REF_bitwise_xor')]
    fam1 = [('ops_unary.c', 'neg', 'i8', 1, 'out', 'REF_neg', 0), ('ops_unary.c', 'logical_not', 'u8', 0, 'bout', 'REF_logical_not', 0), ('ops_unary.c', 'sub_scalar', 'i8', 1, 'out', 'REF_sub_s', 1),
            ('ops_unary.c', 'le_scalar', 'i8', 1, 'bout', 'REF_le', 1), ('ops_bitwise.c', 'bitwise_not', 'u8', 0, 'out', 'REF_bitwise_not', 0), ('ops_bitwise.c', 'shl_scalar', 'u8', 0, 'out', 'REF_shl', 2)]
    for nd_ in (0, 1, 2, 3) if th else (0, 1, 2):
        for f, op, t, s, o, ref in fam2:
            if op == 'lt' and nd_ > 1 and not th:
                continue
            src = f'#define ND {nd_}\n' + ty(t, int(t[1:]), s) + LSYM + REF + f'#include "{f}"\nint main(void) {{\n' + (HOT if op == 'lt' else TAGS) + f'''    size_t n = meta(1);
    hodu_cpu_{op}_{t}(L, R, {o}, md);
    size_t i = below(n);
    CHECK({o}[i] == {ref}(L[pos(i, ls, lo)], R[pos(i, rs, ro)]), "{op}_{t} layout");
    return 0;\n}}\n'''
            js.append(Job(f'layout/{op}_{t}/rank{nd_}', src, [f'hodu_cpu_{op}_{t}'], f'rank {nd_}, extents 1..3 (1..2 at rank 3), strides 0..4, offsets 0..3, all symbolic', unwind=26, ignore=IGN, timeout=200))
        for f, op, t, s, o, ref, sc in fam1:
            S = '    ty S = (ty)nd();\n' if sc == 1 else '    u32_t S = (u32_t)below(8);\n' if sc else ''
            src = f'#define ND {nd_}\n' + ty(t, int(t[1:]), s) + LSYM + REF + f'#include "{f}"\nint main(void) {{\n' + FILL + S + f'''    size_t n = meta(0);
    hodu_cpu_{op}_{t}(L, {o}, md{", S" if sc == 2 else ", &S" if sc else ""});
    size_t i = below(n);
    CHECK({o}[i] == {ref}(L[pos(i, ls, lo)]{", S" if sc else ""}), "{op}_{t} layout");
    return 0;\n}}\n'''
            js.append(Job(f'layout/{op}_{t}/rank{nd_}', src, [f'hodu_cpu_{op}_{t}'], f'rank {nd_}, extents 1..3 (1..2 at rank 3), strides 0..4, offset 0..3, all symbolic', unwind=26, ignore=IGN, timeout=200))
    # threaded paths
    for f, op, t, s, o, ref in fam2[:1] + fam2[2:]:
        for nt in (2, 3):
            src = THR + '#define LN 12\n' + ty(t, int(t[1:]), s) + REF + f'#include "{f}"\nint main(void) {{\n' + FILL + f'''    NT = {nt};
    size_t n = below(8), lo = below(3), ro = below(3);
    size_t md[8] = {{n, 1, n, n, 1, 1, lo, ro}};
    {o}[n] = 77;
    hodu_cpu_{op}_{t}(L, R, {o}, md);
    for (size_t i = 0; i < 8; i++) CHECK(i >= n || {o}[i] == {ref}(L[lo + i], R[ro + i]), "{op}_{t} threads");
    CHECK({o}[n] == 77, "{op}_{t} threads write past the output");
    return 0;\n}}\n'''
            js.append(Job(f'threads/{op}_{t}/{nt}', src, [f'hodu_cpu_{op}_{t}'], f'{nt} threads in any of the explored orders, 0..7 elements, offsets 0..2', unwind=14, ignore=IGN, timeout=200))
    for f, op, t, s, o, ref, sc in fam1:
        if 'logical' in op or 'le_' in op:
            continue
        S = '    ty S = (ty)nd();\n' if sc == 1 else '    u32_t S = (u32_t)below(8);\n' if sc else ''
        for nt in (2, 3):
            src = THR + '#define LN 12\n' + ty(t, int(t[1:]), s) + REF + f'#include "{f}"\nint main(void) {{\n' + FILL + S + f'''    NT = {nt};
    size_t n = below(8), lo = below(3);
    size_t md[8] = {{n, 1, n, 1, lo}};
    {o}[n] = 77;
    hodu_cpu_{op}_{t}(L, {o}, md{", S" if sc == 2 else ", &S" if sc else ""});
    for (size_t i = 0; i < 8; i++) CHECK(i >= n || {o}[i] == {ref}(L[lo + i]{", S" if sc else ""}), "{op}_{t} threads");
    CHECK({o}[n] == 77, "{op}_{t} threads write past the output");
    return 0;\n}}\n'''
            js.append(Job(f'threads/{op}_{t}/{nt}', src, [f'hodu_cpu_{op}_{t}'], f'{nt} threads in any of the explored orders, 0..7 elements, offset 0..2', unwind=14, ignore=IGN, timeout=200))
    return sorted(js, key=lambda j: not j.name.startswith(('layout', 'threads')))
