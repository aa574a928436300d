"""Expression DAG received from the harness, normal forms, differentiation,
numeric evaluation and z3 encoding."""
import math, struct
from fractions import Fraction as Fr
from collections import defaultdict
import z3

UN = {0: 'neg', 1: 'abs', 2: 'sqrt', 3: 'exp', 4: 'exp2', 5: 'ln', 6: 'log2', 7: 'log10', 8: 'sin', 9: 'cos', 10: 'tan', 11: 'asin',
      12: 'acos', 13: 'atan', 14: 'sinh', 15: 'cosh', 16: 'tanh', 17: 'asinh', 18: 'acosh', 19: 'atanh', 20: 'erf', 21: 'floor',
      22: 'ceil', 23: 'round', 24: 'trunc', 25: 'expm1', 26: 'log1p', 27: 'cbrt', 28: 'exp10', 29: 'rint', 30: 'erfc'}
UNI = {v: k for k, v in UN.items()}


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


def f64(bits):
    return struct.unpack('<d', struct.pack('<Q', bits))[0]


class Consts:
    """Floating constants as rationals.  A constant within 1e-6 (relative) of a
    simple fraction is that fraction; any other is rounded to a value shared by
    all constants within 1e-6 of it, so that f32 rounding of a literal does not
    make two equal expressions differ."""

    def __init__(self):
        self.cache = {}
        self.tab = []

    def get(self, v):
        if v in self.cache:
            return self.cache[v]
        self.cache[v] = r = self._get(v)
        return r

    def _get(self, v):
        if v == 0:
            return Fr(0)
        if math.isnan(v) or math.isinf(v):
            raise Unsupported('non-finite constant')
        if v < 0:
            return -self.get(-v)
        if v == int(v) and v < 2 ** 40:
            return Fr(int(v))
        q = Fr(v)
        # simple fraction p/q, also for small values such as 1e-5
        for d in (1, 64, 1000, 20000):
            s = q.limit_denominator(d)
            if s and abs(s - q) <= q * Fr(1, 2 ** 22) and s.numerator * s.denominator < 10 ** 5:
                return s
        e = math.floor(math.log10(v))
        if e < 0:
            k = 10 ** (-e + 2)
            s = Fr(round(q * k), k)
            if s and abs(s - q) <= q * Fr(1, 2 ** 22):
                return s
        for (a, s) in self.tab:
            if abs(a - v) <= 1e-6 * v:
                return s
        s = Fr(f'{v:.9g}')
        self.tab.append((v, s))
        return s


CONSTS = Consts()


# ---------------------------------------------------------------- polynomials
# poly: dict mono -> Fraction; mono: tuple of (atom, exponent) sorted by atom
ONE = ()


def pconst(c):
    return {ONE: c} if c else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


LIMIT = 60000


class Atoms:
    def __init__(self):
        self.keys = {}
        self.info = []

    def get(self, kind, *args):
        k = (kind,) + args
        if k in self.keys:
            return self.keys[k]
        i = len(self.info)
        self.keys[k] = i
        self.info.append(k)
        return i


class Alg:
    """polynomial algebra over atoms, with the rewriting rules of the atoms"""

    def __init__(self):
        self.at = Atoms()
        self.polys = {}
        self.plist = []

    def pkey(self, p):
        k = frozenset(p.items())
        if k in self.polys:
            return self.polys[k]
        i = len(self.plist)
        self.polys[k] = i
        self.plist.append(p)
        return i

    def poly(self, k):
        return self.plist[k]

    # monomial product; returns poly because of the reductions
    def mono_mul(self, m1, m2):
        if not m1:
            return m2, None
        if not m2:
            return m1, None
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        extra = None
        out = []
        for a in sorted(d):
            e = d[a]
            if e == 0:
                continue
            kind = self.at.info[a][0]
            if kind == 'poly' and e >= 1:
                f = math.floor(e)
                q = self.ppow(self.poly(self.at.info[a][1]), f)
                extra = q if extra is None else self.pmul(extra, q)
                e = e - f
                if e == 0:
                    continue
            elif kind == 'sin' and e >= 2:
                c = self.at.get('cos', self.at.info[a][1])
                q = self.ppow(padd(pconst(Fr(1)), {((c, 2),): Fr(1)}, -1), e // 2)
                extra = q if extra is None else self.pmul(extra, q)
                e = e % 2
                if e == 0:
                    continue
            elif kind == 'sqrtc' and (e >= 1 or e < 0):
                pass
            out.append((a, e))
        return tuple(out), extra

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1 and ONE in a:
            return pscale(b, a[ONE])
        r = defaultdict(Fr)
        if len(a) * len(b) > LIMIT * 4:
            raise Unsupported('polynomial too large')
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, ex = self.mono_mul(m1, m2)
                if ex is None:
                    r[m] += c1 * c2
                else:
                    q = self.pmul({m: c1 * c2}, ex) if m else pscale(ex, c1 * c2)
                    for mm, cc in q.items():
                        r[mm] += cc
        r = {m: c for m, c in r.items() if c}
        if len(r) > LIMIT:
            raise Unsupported('polynomial too large')
        return r

    def ppow(self, p, n):
        n = int(n)
        r = pconst(Fr(1))
        while n:
            if n & 1:
                r = self.pmul(r, p)
            n >>= 1
            if n:
                p = self.pmul(p, p)
        return r

    def content(self, p):
        """p = c * m * q with q having no common monomial factor, leading coeff +-1"""
        mins = None
        for m in p:
            d = dict(m)
            if mins is None:
                mins = dict(d)
            else:
                for a in list(mins):
                    if a not in d:
                        mins[a] = min(mins[a], 0)
                for a, e in d.items():
                    mins[a] = min(mins.get(a, 0), e)
        mm = tuple(sorted((a, e) for a, e in mins.items() if e))
        inv = tuple((a, -e) for a, e in mm)
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in inv:
                d[a] = d.get(a, 0) + e
            q[tuple(sorted((a, e) for a, e in d.items() if e))] = c
        q = self.expand(q)
        lead = q[min(q)]
        c = abs(lead)
        return c, mm, {m: v / c for m, v in q.items()}

    def expand(self, p):
        """polynomial atoms with an exponent of one or more, multiplied out"""
        if not any(e >= 1 and self.at.info[a][0] == 'poly' for m in p for a, e in m):
            return p
        r = {}
        for m, c in p.items():
            t = {ONE: c}
            for a, e in m:
                f = math.floor(e) if self.at.info[a][0] == 'poly' else 0
                if f >= 1:
                    t = self.pmul(t, self.expand(self.ppow(self.poly(self.at.info[a][1]), f)))
                    e -= f
                if e:
                    t = self.pmul(t, {((a, e),): Fr(1)})
            r = padd(r, t)
        return r

    def mono_pow(self, m, e):
        p = pconst(Fr(1))
        for a, x in m:
            p = self.pmul(p, {((a, x * e),): Fr(1)})
        return p

    def base(self, q, e):
        """q ** e for q with content removed, more than one term"""
        if q[min(q)] < 0 and Fr(e).denominator == 1:
            s = -1 if int(e) % 2 else 1
            q = pscale(q, -1)
            return {((self.at.get('poly', self.pkey(q)), e),): Fr(s)}
        return {((self.at.get('poly', self.pkey(q)), e),): Fr(1)}

    def inv(self, p):
        if not p:
            raise Unsupported('division by zero')
        if len(p) == 1:
            (m, c), = p.items()
            return pscale(self.mono_pow(m, -1), 1 / c)
        c, m, q = self.content(p)
        r = self.base(q, -1)
        if m:
            r = self.pmul(r, self.mono_pow(m, -1))
        return pscale(r, 1 / c)

    def is_pos(self, a):
        return self.at.info[a][0] in ('exp', 'expc')

    def rpow(self, p, e):
        """p ** e, e a rational; p >= 0 where e is not an integer"""
        e = Fr(e)
        if e.denominator == 1:
            if e >= 0:
                return self.ppow(p, int(e))
            return self.ppow(self.inv(p), int(-e))
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            pos = tuple((a, x) for a, x in m if self.is_pos(a) or Fr(x).denominator != 1)
            rest = tuple((a, x) for a, x in m if not (self.is_pos(a) or Fr(x).denominator != 1))
            r = pconst(Fr(1))
            if pos:
                r = self.mono_pow(pos, e)
            if c < 0:
                if not rest:
                    raise Unsupported('root of a negative constant')
                r = self.pmul(r, {((self.at.get('poly', self.pkey({rest: Fr(-1)})), e),): Fr(1)})
            elif rest:
                if len(rest) == 1 and rest[0][1] in (1, -1):
                    r = self.pmul(r, {((rest[0][0], rest[0][1] * e),): Fr(1)})
                else:
                    r = self.pmul(r, {((self.at.get('poly', self.pkey({rest: Fr(1)})), e),): Fr(1)})
            if abs(c) != 1:
                r = pscale(r, CONSTS.get(float(abs(c)) ** float(e)))
            return r
        c, m, q = self.content(p)
        pos = tuple((a, x) for a, x in m if self.is_pos(a))
        rest = tuple((a, x) for a, x in m if not self.is_pos(a))
        if rest:
            q = self.pmul(q, {rest: Fr(1)})
        r = {((self.at.get('poly', self.pkey(q)), e),): Fr(1)}
        if pos:
            r = self.pmul(r, self.mono_pow(pos, e))
        if c != 1:
            r = pscale(r, CONSTS.get(float(c) ** float(e)))
        return r

    def exp(self, p):
        r = pconst(Fr(1))
        for m, q in p.items():
            if m == ONE:
                # exp of the log of a simple rational (a float log that was folded) is that rational
                near = Fr(math.exp(float(q))).limit_denominator(200) if abs(q) < 20 else Fr(0)
                if abs(q) > 1e-6 and near and abs(math.exp(float(q)) / float(near) - 1) < 1e-8:
                    r = pscale(r, near)
                    continue
                t = {((self.at.get('expc'), q),): Fr(1)}
            elif len(m) == 1 and m[0][1] == 1 and self.at.info[m[0][0]][0] == 'ln':
                t = self.rpow(self.poly(self.at.info[m[0][0]][1]), q)
            else:
                t = {((self.at.get('exp', m), q),): Fr(1)}
            r = self.pmul(r, t)
        return r

    def ln(self, p):
        if not p:
            raise Unsupported('log of zero')
        c, m, q = self.content(p)
        r = {}
        if c != 1:
            r = pconst(CONSTS.get(math.log(float(c))) if float(c) > 0 else None)
        rest = []
        for a, e in m:
            k = self.at.info[a]
            if k[0] == 'exp':
                r = padd(r, {k[1]: Fr(e)})
            elif k[0] == 'expc':
                r = padd(r, pconst(Fr(e)))
            else:
                rest.append((a, e))
        if len(q) == 1 and q.get(ONE) == 1 and len(rest) == 1:
            a, e = rest[0]
            e = Fr(e)
            if e.denominator != 1 or e % 2 != 0:
                k = self.at.info[a]
                inner = self.poly(k[1]) if k[0] == 'poly' else {((a, 1),): Fr(1)}
                return padd(r, {((self.at.get('ln', self.pkey(inner)), 1),): e})
        if rest:
            q = self.pmul(q, {tuple(rest): Fr(1)})
        if len(q) == 1 and ONE in q:
            if q[ONE] == 1:
                return r
            raise Unsupported('log of a negative number')
        return padd(r, {((self.at.get('ln', self.pkey(q)), 1),): Fr(1)})

    def fn(self, name, p):
        if name in ('sin', 'erf', 'atan', 'asin', 'asinh', 'atanh', 'cos'):
            s = 1
            if not p:
                return pconst(Fr(1)) if name == 'cos' else {}
            if p[min(p)] < 0:
                p = pscale(p, -1)
                s = 1 if name == 'cos' else -1
            return {((self.at.get(name, self.pkey(p)), 1),): Fr(s)}
        return {((self.at.get(name, self.pkey(p)), 1),): Fr(1)}

    def is_zero(self, p):
        """decide p == 0 as a rational function of its atoms; returns the residual"""
        for _ in range(400):
            p = self.expand(p)
            if not p:
                return p
            # clear the denominators of polynomial atoms, innermost last
            mins = {}
            for m in p:
                for a, e in m:
                    if self.at.info[a][0] == 'poly' and e < 0:
                        mins[a] = min(mins.get(a, 0), math.floor(e))
            if not mins:
                break
            a = max(mins)
            f = -mins[a]
            r = defaultdict(Fr)
            q = self.poly(self.at.info[a][1])
            pw = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(a, 0) + f
                ip = math.floor(e)
                fp = e - ip
                if fp:
                    d[a] = fp
                base = {tuple(sorted(d.items())): c}
                if ip not in pw:
                    pw[ip] = self.ppow(q, ip)
                t = self.pmul(base, pw[ip])
                for mm, cc in t.items():
                    r[mm] += cc
            p = {m: c for m, c in r.items() if c}
        return p


class Dag:
    def __init__(self):
        self.nodes = {}
        self.n = 1
        self.map = {}
        self.next = 1 << 30
        self.vars = {}  # node -> (lo, hi, index)
        self.pin = {}  # variables whose box is one value: constants that are not rounded
        self.alg = Alg()
        self.zc = {}
        self.zax = []

    def feed(self, f):
        i = self.n
        self.n += 1
        k = f[0]
        if k == 'c':
            n = ('c', f64(int(f[1])))
        elif k == 'v':
            n = ('v', int(f[1]))
        else:
            n = (k,) + tuple(int(x) for x in f[1:])
        self.nodes[i] = n
        self.map[n] = i

    def mk(self, *n):
        # light folding for the derivative expressions
        k = n[0]
        g = self.nodes
        if k in '+-*/' and len(n) == 3:
            a, b = g[n[1]], g[n[2]]
            if a[0] == 'c' and b[0] == 'c':
                try:
                    v = {'+': lambda: a[1] + b[1], '-': lambda: a[1] - b[1], '*': lambda: a[1] * b[1], '/': lambda: a[1] / b[1]}[k]()
                    return self.const(v)
                except ZeroDivisionError:
                    pass
            if k == '+':
                if a == ('c', 0.0):
                    return n[2]
                if b == ('c', 0.0):
                    return n[1]
            if k == '-' and b == ('c', 0.0):
                return n[1]
            if k == '*':
                if a == ('c', 0.0) or b == ('c', 0.0):
                    return self.const(0.0)
                if a == ('c', 1.0):
                    return n[2]
                if b == ('c', 1.0):
                    return n[1]
            if k == '/' and b == ('c', 1.0):
                return n[1]
        if n in self.map:
            return self.map[n]
        i = self.next
        self.next += 1
        self.nodes[i] = n
        self.map[n] = i
        return i

    def const(self, v):
        return self.mk('c', float(v))

    def un(self, name, x):
        return self.mk('u', UNI[name], x)

    def topo(self, roots, conds=True):
        seen, out = set(), []
        st = [(r, False) for r in roots]
        while st:
            i, done = st.pop()
            if done:
                out.append(i)
                continue
            if i in seen:
                continue
            seen.add(i)
            st.append((i, True))
            for ch in self.children(i, conds):
                if ch not in seen:
                    st.append((ch, False))
        return out

    def children(self, i, conds=True):
        n = self.nodes[i]
        k = n[0]
        if k in ('c', 'v', 'x', 'T', 'F'):
            return ()
        if k == 'u':
            return (n[2],)
        if k in ('b', 'C'):
            return (n[2], n[3])
        if k == 's':
            return (n[2], n[3], n[4], n[5]) if conds else (n[4], n[5])
        return n[1:]

    # -------------------------------------------------------- derivatives
    def grad(self, loss, wrt):
        order = self.topo([loss], conds=False)
        adj = {loss: self.const(1.0)}
        ws = set(wrt)
        # nodes that depend on some wrt
        dep = set()
        for i in order:
            if i in ws or any(ch in dep for ch in self.children(i, False)):
                dep.add(i)
        mk, un, K = self.mk, self.un, self.const

        def acc(i, v):
            if i not in dep:
                return
            adj[i] = mk('+', adj[i], v) if i in adj else v

        for i in reversed(order):
            if i not in adj or i not in dep:
                continue
            g = adj[i]
            n = self.nodes[i]
            k = n[0]
            if k == '+':
                acc(n[1], g)
                acc(n[2], g)
            elif k == '-':
                acc(n[1], g)
                acc(n[2], mk('-', K(0), g))
            elif k == '*':
                acc(n[1], mk('*', g, n[2]))
                acc(n[2], mk('*', g, n[1]))
            elif k == '/':
                acc(n[1], mk('/', g, n[2]))
                acc(n[2], mk('-', K(0), mk('/', mk('*', g, n[1]), mk('*', n[2], n[2]))))
            elif k == '%':
                acc(n[1], g)
                q = un('trunc', mk('/', n[1], n[2]))
                acc(n[2], mk('-', K(0), mk('*', g, q)))
            elif k == 's':
                z = K(0)
                acc(n[4], mk('s', n[1], n[2], n[3], g, z))
                acc(n[5], mk('s', n[1], n[2], n[3], z, g))
            elif k == 'u':
                x = n[2]
                f = UN[n[1]]
                if f == 'neg':
                    acc(x, mk('-', K(0), g))
                    continue
                if f == 'abs':
                    d = mk('s', 4, x, K(0), K(-1), K(1))
                elif f == 'sqrt':
                    d = mk('/', K(0.5), i)
                elif f == 'exp':
                    d = i
                elif f == 'exp2':
                    d = mk('*', i, K(math.log(2)))
                elif f == 'exp10':
                    d = mk('*', i, K(math.log(10)))
                elif f == 'ln':
                    d = mk('/', K(1), x)
                elif f == 'log2':
                    d = mk('/', K(1), mk('*', x, K(math.log(2))))
                elif f == 'log10':
                    d = mk('/', K(1), mk('*', x, K(math.log(10))))
                elif f == 'sin':
                    d = un('cos', x)
                elif f == 'cos':
                    d = mk('-', K(0), un('sin', x))
                elif f == 'tan':
                    c = un('cos', x)
                    d = mk('/', K(1), mk('*', c, c))
                elif f == 'asin':
                    d = mk('/', K(1), un('sqrt', mk('-', K(1), mk('*', x, x))))
                elif f == 'acos':
                    d = mk('/', K(-1), un('sqrt', mk('-', K(1), mk('*', x, x))))
                elif f == 'atan':
                    d = mk('/', K(1), mk('+', K(1), mk('*', x, x)))
                elif f == 'sinh':
                    d = un('cosh', x)
                elif f == 'cosh':
                    d = un('sinh', x)
                elif f == 'tanh':
                    d = mk('-', K(1), mk('*', i, i))
                elif f == 'asinh':
                    d = mk('/', K(1), un('sqrt', mk('+', mk('*', x, x), K(1))))
                elif f == 'acosh':
                    d = mk('/', K(1), un('sqrt', mk('-', mk('*', x, x), K(1))))
                elif f == 'atanh':
                    d = mk('/', K(1), mk('-', K(1), mk('*', x, x)))
                elif f == 'erf':
                    d = mk('*', K(2 / math.sqrt(math.pi)), un('exp', mk('-', K(0), mk('*', x, x))))
                elif f == 'cbrt':
                    d = mk('/', i, mk('*', K(3), x))
                elif f == 'expm1':
                    d = un('exp', x)
                elif f == 'log1p':
                    d = mk('/', K(1), mk('+', K(1), x))
                elif f in ('floor', 'ceil', 'round', 'trunc', 'rint'):
                    continue
                else:
                    raise Unsupported('derivative of ' + f)
                acc(x, mk('*', g, d))
            elif k == 'b' and n[1] == 1:
                x, y = n[2], n[3]
                acc(x, mk('*', g, mk('*', y, mk('b', 1, x, mk('-', y, K(1))))))
                acc(y, mk('*', g, mk('*', i, un('ln', x))))
            elif k in ('v', 'c'):
                pass
            else:
                raise Unsupported('derivative of ' + str(n))
        return [adj.get(w, K(0)) for w in wrt]

    # -------------------------------------------------------- numeric value
    def evalf(self, roots, env):
        """env: var index -> float"""
        val = {}
        for i in self.topo(roots):
            n = self.nodes[i]
            k = n[0]
            try:
                if k == 'c':
                    v = n[1]
                elif k == 'v':
                    v = env[n[1]]
                elif k == '+':
                    v = val[n[1]] + val[n[2]]
                elif k == '-':
                    v = val[n[1]] - val[n[2]]
                elif k == '*':
                    v = val[n[1]] * val[n[2]]
                elif k == '/':
                    v = val[n[1]] / val[n[2]]
                elif k == '%':
                    v = math.fmod(val[n[1]], val[n[2]])
                elif k == 'u':
                    v = ev_un(UN[n[1]], val[n[2]])
                elif k == 'b':
                    a, b = val[n[2]], val[n[3]]
                    if n[1] == 1:
                        v = a ** b
                        if isinstance(v, complex):
                            v = math.nan
                    elif n[1] == 4:
                        v = math.copysign(a, b)
                    elif n[1] == 6:
                        v = math.atan2(a, b)
                    else:
                        v = math.hypot(a, b)
                elif k == 's':
                    v = val[n[4]] if ev_cmp(n[1], val[n[2]], val[n[3]]) else val[n[5]]
                elif k == 'C':
                    v = ev_cmp(n[1], val[n[2]], val[n[3]])
                elif k == '&':
                    v = val[n[1]] and val[n[2]]
                elif k == '|':
                    v = val[n[1]] or val[n[2]]
                elif k == '!':
                    v = not val[n[1]]
                elif k == 'T':
                    v = True
                elif k == 'F':
                    v = False
                else:
                    v = math.nan
            except (ZeroDivisionError, ValueError, OverflowError):
                v = math.nan
            val[i] = v
        return [val[r] for r in roots]

    # -------------------------------------------------------- normal form
    def norm(self, root, env, opaque, memo):
        """poly of `root`; env maps (pred,a,b) to a truth value"""
        A = self.alg
        cm = {}

        def need(i):
            return i not in memo
        st = [root]
        while st:
            i = st[-1]
            if i in memo:
                st.pop()
                continue
            n = self.nodes[i]
            k = n[0]
            if k == 's':
                key = (n[1], n[2], n[3])
                if key in env:
                    ch = [n[4]] if env[key] else [n[5]]
                elif opaque:
                    ch = [n[2], n[3], n[4], n[5]]
                else:
                    a, b = n[2], n[3]
                    todo = [x for x in (a, b) if x not in memo]
                    if todo:
                        st.extend(todo)
                        continue
                    d = padd(memo[a], memo[b], -1)
                    if not d or (len(d) == 1 and ONE in d):
                        cst = d.get(ONE, 0)
                        env[key] = (cst == 0) if n[1] == 1 else (cst < 0 if n[1] == 4 else cst <= 0)
                        continue
                    raise NeedSplit(key)
            elif k == 'u' and UN[n[1]] == 'abs' and not opaque:
                zc = self.const(0.0)
                key = (4, n[2], zc)
                if key not in env:
                    if n[2] not in memo:
                        st.append(n[2])
                        continue
                    d = memo[n[2]]
                    if not d or (len(d) == 1 and ONE in d):
                        env[key] = d.get(ONE, 0) < 0
                        continue
                    raise NeedSplit(key)
                ch = [n[2]]
            else:
                ch = self.children(i)
            todo = [x for x in ch if x not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            memo[i] = self._norm1(n, env, opaque, memo)
        return memo[root]

    def rng(self, root):
        """interval of a term over the input box (None: unknown)"""
        m = self.__dict__.setdefault('rngs', {})
        for i in self.topo([root]):
            if i in m:
                continue
            n = self.nodes[i]
            k = n[0]
            v = None
            if k == 'c':
                v = (n[1], n[1])
            elif k == 'v':
                b = self.vars.get(i)
                v = (b[0], b[1]) if b else None
            elif k in '+-*/' and m[n[1]] and m[n[2]]:
                a, b = m[n[1]], m[n[2]]
                if k == '+':
                    v = (a[0] + b[0], a[1] + b[1])
                elif k == '-':
                    v = (a[0] - b[1], a[1] - b[0])
                elif k == '*' or b[0] > 0 or b[1] < 0:
                    c = [x * y if k == '*' else x / y for x in a for y in b]
                    v = (min(c), max(c))
            elif k == 's' and m[n[4]] and m[n[5]]:
                v = (min(m[n[4]][0], m[n[5]][0]), max(m[n[4]][1], m[n[5]][1]))
            elif k == 'u' and m[n[2]]:
                a = m[n[2]]
                if UN[n[1]] == 'neg':
                    v = (-a[1], -a[0])
                elif UN[n[1]] in ('exp', 'exp2', 'exp10', 'tanh', 'erf', 'atan', 'sinh', 'asinh', 'cbrt') \
                        or UN[n[1]] in ('sqrt', 'ln', 'log2', 'log10') and a[0] > 0:
                    try:
                        w = (ev_un(UN[n[1]], a[0]), ev_un(UN[n[1]], a[1]))
                        v = tuple(x + d * (1e-9 + 1e-9 * abs(x)) for x, d in zip(w, (-1, 1)))
                    except (ValueError, OverflowError):
                        v = None
                elif UN[n[1]] == 'abs':
                    v = a if a[0] >= 0 else (-a[1], -a[0]) if a[1] <= 0 else (0.0, max(-a[0], a[1]))
            elif k == 'b' and n[1] == 1 and m[n[2]] and m[n[3]] and m[n[2]][0] > 0:
                try:
                    w = [a ** b for a in m[n[2]] for b in m[n[3]]]
                    v = (min(w) * (1 - 1e-9), max(w) * (1 + 1e-9))
                except OverflowError:
                    v = None
            if v is not None and not (math.isfinite(v[0]) and math.isfinite(v[1])):
                v = None
            m[i] = v
        return m[root]

    def const_step(self, f, arg):
        """value of a step function that is constant on the whole box"""
        r = self.rng(arg)
        if r is None:
            return None
        e = 1e-9
        a, b = ev_un(f, r[0] - e), ev_un(f, r[1] + e)
        return Fr(int(a)) if a == b else None

    def _norm1(self, n, env, opaque, P):
        A = self.alg
        k = n[0]
        if k == 'c':
            return pconst(CONSTS.get(n[1]))
        if k == 'v':
            if n[1] in self.pin:
                return pconst(self.pin[n[1]])
            fx = getattr(self, 'fixed', None)
            if fx and n[1] in fx:
                return pconst(fx[n[1]])
            return {((A.at.get('var', n[1]), 1),): Fr(1)}
        if k == '+':
            return padd(P[n[1]], P[n[2]])
        if k == '-':
            return padd(P[n[1]], P[n[2]], -1)
        if k == '*':
            return A.pmul(P[n[1]], P[n[2]])
        if k == '/':
            return A.pmul(P[n[1]], A.inv(P[n[2]]))
        if k == '%':
            q = self.const_step('trunc', self.mk('/', n[1], n[2]))
            if q is not None:
                return padd(P[n[1]], pscale(P[n[2]], q), -1)
            return {((A.at.get('rem', A.pkey(P[n[1]]), A.pkey(P[n[2]])), 1),): Fr(1)}
        if k == 's':
            key = (n[1], n[2], n[3])
            if key in env:
                return P[n[4]] if env[key] else P[n[5]]
            d = padd(P[n[2]], P[n[3]], -1)
            if P[n[4]] == P[n[5]]:
                return P[n[4]]
            return {((A.at.get('ite', n[1], A.pkey(d), A.pkey(P[n[4]]), A.pkey(P[n[5]])), 1),): Fr(1)}
        if k == 'u':
            f = UN[n[1]]
            p = P[n[2]]
            if f == 'neg':
                return pscale(p, -1)
            if f == 'abs':
                key = (4, n[2], self.const(0.0))
                if key in env:
                    return pscale(p, -1) if env[key] else p
                return A.fn('abs', p)
            if f in ('floor', 'ceil', 'trunc', 'round', 'rint'):
                q = self.const_step(f, n[2])
                if q is not None:
                    return pconst(q)
            if f == 'sqrt':
                return A.rpow(p, Fr(1, 2))
            if f == 'cbrt':
                return A.rpow(p, Fr(1, 3))
            if f == 'exp':
                return A.exp(p)
            if f == 'expm1':
                return padd(A.exp(p), pconst(Fr(-1)))
            if f == 'exp2':
                return A.exp(pscale(p, CONSTS.get(math.log(2))))
            if f == 'exp10':
                return A.exp(pscale(p, CONSTS.get(math.log(10))))
            if f == 'ln':
                return A.ln(p)
            if f == 'log1p':
                return A.ln(padd(p, pconst(Fr(1))))
            if f == 'log2':
                return pscale(A.ln(p), CONSTS.get(1 / math.log(2)))
            if f == 'log10':
                return pscale(A.ln(p), CONSTS.get(1 / math.log(10)))
            if f == 'tan':
                return A.pmul(A.fn('sin', p), A.inv(A.fn('cos', p)))
            if f == 'tanh':
                e2 = A.exp(pscale(p, 2))
                return A.pmul(padd(e2, pconst(Fr(-1))), A.inv(padd(e2, pconst(Fr(1)))))
            if f in ('sinh', 'cosh'):
                e, ei = A.exp(p), A.exp(pscale(p, -1))
                return pscale(padd(e, ei, 1 if f == 'cosh' else -1), Fr(1, 2))
            if f == 'acos':
                return padd(pconst(CONSTS.get(math.pi / 2)), A.fn('asin', p), -1)
            if f == 'erfc':
                return padd(pconst(Fr(1)), A.fn('erf', p), -1)
            return A.fn(f, p)
        if k == 'b':
            x, y = P[n[2]], P[n[3]]
            if n[1] == 1:
                if not y or (len(y) == 1 and ONE in y):
                    return A.rpow(x, y.get(ONE, Fr(0)))
                return A.exp(A.pmul(y, A.ln(x)))
            return {((A.at.get('bin', n[1], A.pkey(x), A.pkey(y)), 1),): Fr(1)}
        if k == 'x':
            raise Unsupported('arithmetic on infinities')
        raise Unsupported(str(n))

    # -------------------------------------------------------- z3
    def z(self, root):
        """z3 term; non-polynomial functions become constants named by their
        canonical argument, with sign axioms added to self.zax"""
        zc = self.zc
        for i in self.topo([root]):
            if i in zc:
                continue
            n = self.nodes[i]
            k = n[0]
            if k == 'c':
                if math.isnan(n[1]) or math.isinf(n[1]):
                    raise Unsupported('non-finite constant')
                q = CONSTS.get(n[1])
                v = z3.RealVal(str(q))
            elif k == 'v':
                v = z3.RealVal(str(self.pin[n[1]])) if n[1] in self.pin else z3.Real(f'x{n[1]}')
            elif k == '+':
                v = zc[n[1]] + zc[n[2]]
            elif k == '-':
                v = zc[n[1]] - zc[n[2]]
            elif k == '*':
                v = zc[n[1]] * zc[n[2]]
            elif k == '/':
                v = zc[n[1]] / zc[n[2]]
            elif k == 's':
                v = z3.If(zcmp(n[1], zc[n[2]], zc[n[3]]), zc[n[4]], zc[n[5]])
            elif k == 'C':
                v = zcmp(n[1], zc[n[2]], zc[n[3]])
            elif k == '&':
                v = z3.And(zc[n[1]], zc[n[2]])
            elif k == '|':
                v = z3.Or(zc[n[1]], zc[n[2]])
            elif k == '!':
                v = z3.Not(zc[n[1]])
            elif k == 'T':
                v = z3.BoolVal(True)
            elif k == 'F':
                v = z3.BoolVal(False)
            elif k == 'u':
                f = UN[n[1]]
                a = zc[n[2]]
                if f == 'neg':
                    v = -a
                elif f == 'abs':
                    v = z3.If(a < 0, -a, a)
                elif f == 'floor':
                    v = z3.ToReal(z3.ToInt(a))
                elif f == 'ceil':
                    v = -z3.ToReal(z3.ToInt(-a))
                elif f == 'trunc':
                    v = z3.If(a < 0, -z3.ToReal(z3.ToInt(-a)), z3.ToReal(z3.ToInt(a)))
                elif f == 'round':
                    h = z3.RealVal('1/2')
                    v = z3.If(a < 0, -z3.ToReal(z3.ToInt(-a + h)), z3.ToReal(z3.ToInt(a + h)))
                else:
                    try:
                        key = self.alg.pkey(self.norm(n[2], {}, True, self.opm()))
                        nm = f'{f}!{key}'
                    except Unsupported:
                        nm = f'{f}!n{n[2]}'
                    v = z3.Real(nm)
                    if f in ('exp', 'exp2', 'exp10', 'cosh'):
                        self.zax.append(v > 0)
                        if f == 'exp':
                            self.zax.append(z3.And(v >= 1 + a, z3.Implies(a == 0, v == 1), z3.Implies(a < 0, v < 1)))
                    elif f == 'sqrt':
                        self.zax.append(z3.And(v >= 0, v * v == a))
                    elif f in ('tanh', 'erf', 'sinh', 'atan', 'asinh'):
                        self.zax.append(z3.And(z3.Implies(a > 0, v > 0), z3.Implies(a < 0, v < 0), z3.Implies(a == 0, v == 0)))
                        if f in ('tanh', 'erf'):
                            self.zax.append(z3.And(v < 1, v > -1))
                    elif f in ('sin', 'cos'):
                        self.zax.append(z3.And(v <= 1, v >= -1))
                    elif f == 'ln':
                        self.zax.append(z3.And(v <= a - 1, z3.Implies(a > 1, v > 0), z3.Implies(a < 1, v < 0)))
            elif k == 'b' and n[1] == 1:
                try:
                    nm = f'pow!{self.alg.pkey(self.norm(n[2], {}, True, self.opm()))}!{self.alg.pkey(self.norm(n[3], {}, True, self.opm()))}'
                except Unsupported:
                    nm = f'o!{i}'
                v = z3.Real(nm)
                x, y = zc[n[2]], zc[n[3]]
                self.zax.append(z3.Implies(x > 0, v > 0))
                self.zax.append(z3.Implies(x == 1, v == 1))
                self.zax.append(z3.Implies(z3.And(x > 0, y > 0), z3.And(z3.Implies(x > 1, v > 1), z3.Implies(x < 1, v < 1))))
                self.zax.append(z3.Implies(z3.And(x > 0, y < 0), z3.And(z3.Implies(x > 1, v < 1), z3.Implies(x < 1, v > 1))))
            else:
                v = z3.Real(f'o!{i}')
            if k in 'ub' and z3.is_const(v) and v.decl().arity() == 0 and not z3.is_rational_value(v):
                r = self.rng(i)
                if r:
                    self.zax.append(z3.And(v >= z3.RealVal(repr(r[0])), v <= z3.RealVal(repr(r[1]))))
            zc[i] = v
        return zc[root]

    def opm(self):
        if not hasattr(self, '_opm'):
            self._opm = {}
        return self._opm

    def nonlinear(self, roots):
        """True if something outside linear arithmetic + if-then-else occurs"""
        deg = {}
        for i in self.topo(roots):
            n = self.nodes[i]
            k = n[0]
            ch = self.children(i)
            sym = any(deg[c] for c in ch) or k == 'v' and n[1] not in self.pin
            deg[i] = sym
            if k == '*' and deg[n[1]] and deg[n[2]]:
                return True
            if k == '/' and deg[n[2]]:
                return True
            if k == 'u' and sym and UN[n[1]] not in ('neg', 'abs'):
                return True
            if k in ('b', '%') and sym:
                return True
        return False


def zcmp(p, a, b):
    return {1: lambda: a == b, 2: lambda: a > b, 3: lambda: a >= b, 4: lambda: a < b, 5: lambda: a <= b, 6: lambda: a != b}[p]()


def ev_cmp(p, a, b):
    return {1: a == b, 2: a > b, 3: a >= b, 4: a < b, 5: a <= b, 6: a != b}[p]


def ev_un(f, x):
    if f == 'neg':
        return -x
    if f == 'abs':
        return abs(x)
    if f == 'ln':
        return math.log(x)
    if f == 'exp10':
        return 10.0 ** x
    if f == 'round':
        return math.copysign(math.floor(abs(x) + 0.5), x)
    if f == 'rint':
        return float(round(x))
    if f in ('floor', 'ceil', 'trunc'):
        return float(getattr(math, f)(x))
    return getattr(math, f)(x)
