"""Drives one harness process through all paths of its cases and decides every
query with z3 (over the reals), after the normalisation of dag.py."""
import os, sys, subprocess, time, math, random, json, select
import z3
from fractions import Fraction as Fr
from dag import *

TOL = 1e-3


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.queries = 0
        self.lin = 0
        self.alg = 0
        self.outputs = 0
        self.branches = 0
        self.symops = 0
        self.solver_s = 0.0
        self.viol = []
        self.undecided = []
        self.truncated = False


class Harness:
    def __init__(self, argv, env=None):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        # the child uses fd 3 and 4
        def pre():
            os.dup2(r1, 103)
            os.dup2(w2, 104)
            os.dup2(103, 3)
            os.dup2(104, 4)
            for f in (103, 104):
                os.close(f)
        self.p = subprocess.Popen(argv, preexec_fn=pre, close_fds=False, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, env=env)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, 'w', buffering=1)
        self.rfd = r2
        self.buf = b''
        self.lines = []
        self.r = self
        self.timeout = 90
        self.timed_out = False

    def send(self, s):
        self.w.write(s + '\n')
        self.w.flush()

    def readline(self):
        while not self.lines:
            rd, _, _ = select.select([self.rfd], [], [], self.timeout)
            if not rd:
                self.timed_out = True
                return ''
            b = os.read(self.rfd, 1 << 20)
            if not b:
                return ''
            self.buf += b
            *ls, self.buf = self.buf.split(b'\n')
            self.lines = [x.decode('utf8', 'replace') for x in ls][::-1]
        return self.lines.pop() + '\n'

    def close(self):
        try:
            os.close(self.rfd)
        except OSError:
            pass
        try:
            self.w.close()
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class Explorer:
    def __init__(self, argv, seed=1, budget=None, env=None):
        self.argv = argv
        self.h = None
        self.rng = random.Random(seed)
        self.max_paths = 4000
        self.budget = budget
        self.env = env

    def proc(self):
        if self.h is None or self.h.p.poll() is not None:
            self.h = Harness(self.argv, self.env)
        return self.h

    # ------------------------------------------------------------------ paths
    def case(self, name):
        res = Result(name)
        prefix = []
        t0 = time.time()
        while True:
            alts = self.path(name, prefix, res)
            res.paths += 1
            if alts is None:
                break
            if res.paths >= self.max_paths or (self.budget and time.time() - t0 > self.budget):
                if alts:
                    res.truncated = True
                    res.undecided.append(f'{name}: path budget')
                break
            if res.viol:
                break
            # backtrack: alts is list of decisions [(value, other_feasible)]
            while alts and not alts[-1][1]:
                alts.pop()
            if not alts:
                break
            v, _ = alts.pop()
            prefix = alts + [(not v, False)]
        return res

    def path(self, name, prefix, res):
        h = self.proc()
        h.send('RUN ' + name)
        g = Dag()
        self.g = g
        dec = []
        pc = []        # (node, bool)
        self.solver = s = z3.Solver()
        self.axs, self.marks = [], []
        s.set('timeout', 4000)
        self.pc_nodes = []
        nq = 0
        queries = []
        try:
            while True:
                line = h.r.readline()
                if not line:
                    self.h = None
                    h.close()
                    rc = h.p.poll()
                    cex = self.witness([], g)
                    rep = self.concrete(name, cex) if cex else None
                    if rep is not None and rep.get('died'):
                        res.viol.append(dict(case=name, label='process', what='the process running the operation died (signal/abort)', inputs=cex))
                    else:
                        res.undecided.append(f'{name}: harness died rc={rc}')
                    return None
                f = line.split()
                t = f[0]
                if t == 'N':
                    g.feed(f[1:])
                elif t == 'V':
                    i = int(f[1])
                    g.vars[i] = (float(f[2]), float(f[3]), g.nodes[i][1])
                    if f[2] == f[3]:
                        g.pin[g.nodes[i][1]] = Fr(float(f[2]))
                        continue
                    x = g.z(i)
                    s.add(x >= z3.RealVal(f[2]), x <= z3.RealVal(f[3]))
                elif t == 'A':
                    i = int(f[1])
                    self.pc_nodes.append((i, True))
                    s.add(g.z(i))
                    self.flushax(g, s)
                elif t == 'B':
                    i = int(f[1])
                    res.branches += 1
                    k = len(dec)
                    if k < len(prefix):
                        v, alt = prefix[k]
                        dec.append((v, alt))
                    else:
                        n = g.nodes[i]
                        z = g.z(i)
                        self.flushax(g, s)
                        t1 = time.time()
                        can_t = can_f = True
                        if n[1] == 1:
                            # equality of two symbolic reals: take "different" first
                            can_f = s.check(z3.Not(z)) != z3.unsat
                            can_t = (not can_f) or s.check(z) != z3.unsat
                            v = not can_f
                            alt = can_t if not v else False
                        else:
                            can_t = s.check(z) != z3.unsat
                            can_f = (not can_t) or s.check(z3.Not(z)) != z3.unsat
                            v = can_t
                            alt = can_f if v else False
                        res.solver_s += time.time() - t1
                        res.queries += 2
                        dec.append((v, alt))
                    v = dec[-1][0]
                    z = g.z(i)
                    self.flushax(g, s)
                    s.add(z if v else z3.Not(z))
                    self.pc_nodes.append((i, v))
                    h.send('1' if v else '0')
                elif t in ('Q', 'G'):
                    queries.append(f)
                elif t == 'F':
                    queries.append(f)
                elif t == 'P':
                    res.outputs += int(f[2]) if len(f) > 2 else 1
                elif t == 'E':
                    if f[1] == 'unsupported':
                        res.undecided.append(f'{name}: {" ".join(f[2:])}')
                    elif f[1] in ('err', 'panic'):
                        queries.append(['F', f[1], ' '.join(f[2:])])
                    for x in f:
                        if x.startswith('ops='):
                            res.symops += int(x[4:])
                    break
        except Unsupported as e:
            res.undecided.append(f'{name}: {e}')
            self.h.close()
            self.h = None
            return None
        for f in queries:
            try:
                self.query(name, f, res)
            except Unsupported as e:
                if not self.hunt(name, f, res, str(e)):
                    res.undecided.append(f'{name}: {f[1]}: {e}')
            if res.viol:
                break
        return dec

    def flushax(self, g, s):
        for a in g.zax:
            s.add(a)
            self.axs.append(a)
        g.zax.clear()

    def push(self, s):
        s.push()
        self.marks.append(len(self.axs))

    def pop(self, s):
        # axioms met inside the scope stay
        s.pop()
        for a in self.axs[self.marks.pop():]:
            s.add(a)

    # ---------------------------------------------------------------- queries
    def query(self, name, f, res):
        g, s = self.g, self.solver
        res.queries += 1
        t0 = time.time()
        try:
            if f[0] == 'F':
                # a concrete failure on a feasible path
                cex = self.witness([], g)
                if cex is None:
                    r = s.check()
                    if r == z3.unsat:
                        return
                    res.undecided.append(f'{name}: {f[1]} failed on a path whose feasibility is undecided: {" ".join(f[2:])}')
                    return
                self.confirm(name, f, cex, res, ' '.join(f[2:]))
                return
            if f[0] == 'Q' and f[2] == 'assert':
                b = int(f[3])
                res.outputs += 1
                z = g.z(b)
                self.flushax(g, s)
                r = s.check(z3.Not(z))
                if r == z3.unsat:
                    res.lin += 1
                    return
                cex = self.witness([(b, False)], g)
                if cex:
                    self.confirm(name, f, cex, res, 'assertion is false')
                else:
                    res.undecided.append(f'{name}: {f[1]}: assert undecided ({r})')
                return
            if f[0] == 'Q':
                k = int(f[3])
                got = [int(x) for x in f[4:4 + k]]
                want = [int(x) for x in f[4 + k:4 + 2 * k]]
                strict = False
            else:
                loss, k = int(f[2]), int(f[3])
                wrt = [int(x) for x in f[4:4 + k]]
                got = [int(x) for x in f[4 + k:4 + 2 * k]]
                want = g.grad(loss, wrt)
                strict = True
            res.outputs += k
            self.decide(name, f, got, want, strict, res)
        finally:
            res.solver_s += time.time() - t0

    def decide(self, name, f, got, want, strict, res):
        g, s = self.g, self.solver
        if self.stale(got):
            # a value that no operation of this run made: read from memory outside the operands
            for t in range(8):
                env = self.witness([], g)
                if env and self.confirm(name, f, env, res, 'the result is built from memory outside the operands', want=want, quiet=True):
                    return
            raise Unsupported('the result contains a value that is not of this run')
        pairs = []
        for a, b in zip(got, want):
            na, nb = g.nodes[a], g.nodes[b]
            fa = na[0] == 'c' and not math.isfinite(na[1])
            fb = nb[0] == 'c' and not math.isfinite(nb[1])
            if fa or fb:
                if a != b and not (fa and fb and (na[1] == nb[1] or (na[1] != na[1] and nb[1] != nb[1]))):
                    cex = self.witness([], g)
                    if cex is None:
                        raise Unsupported('infinite result on an undecided path')
                    self.confirm(name, f, cex, res, 'non-finite value', want=want)
                    return
                continue
            pairs.append((a, b))
        roots = [x for p in pairs for x in p]
        pcr = [i for i, _ in self.pc_nodes]
        ties = []
        if strict:
            seen = set()
            for i in g.topo(roots + pcr):
                n = g.nodes[i]
                if n[0] in ('s', 'C') and (n[2], n[3]) not in seen:
                    seen.add((n[2], n[3]))
                    ties.append((n[2], n[3]))
                if n[0] == 'u' and UN[n[1]] == 'abs':
                    ties.append((n[2], g.const(0.0)))
            # a path that sits on a tie is not checked for gradients
            for i, v in self.pc_nodes:
                n = g.nodes[i]
                if n[0] == 'C' and n[1] == 1 and v:
                    return
        pairs = [(a, b) for a, b in pairs if a != b]
        if not g.nonlinear([x for p in pairs for x in p] + pcr):
            self.push(s)
            ds = []
            for a, b in pairs:
                d = g.z(a) - g.z(b)
                ds.append(z3.Or(d > TOL, d < -TOL))
            for a, b in ties:
                s.add(g.z(a) != g.z(b))
            self.flushax(g, s)
            s.add(z3.Or(ds) if ds else z3.BoolVal(False))
            r = s.check()
            m = s.model() if r == z3.sat else None
            self.pop(s)
            if r == z3.unsat:
                res.lin += 1
                return
            if r == z3.sat:
                cex = {g.vars[i][2]: self.val(m, i) for i in g.vars}
                if self.confirm(name, f, cex, res, 'wrong value', want=want, quiet=True):
                    return
            if self.hunt(name, f, res, 'linear query ' + str(r), want=want, got=got):
                return
            raise Unsupported('linear query ' + str(r))
        # non-linear: normal forms, case splits on the conditions decided by z3
        self.splits = 0
        bad = []
        memo = {}
        todo = []
        for a, b in pairs:
            d = padd(g.norm(a, {}, True, g.opm()), g.norm(b, {}, True, g.opm()), -1)
            d = self.small(g.alg.is_zero(d))
            if d:
                todo.append((a, b))
        if todo:
            self.split(todo, {}, ties, bad, [])
        # the verdict: is a residual satisfiable under the path condition?
        s2 = z3.Solver()
        s2.add(z3.Or([z3.BoolVal(True) for _ in bad]) if bad else z3.BoolVal(False))
        if s2.check() == z3.unsat:
            res.alg += 1
            return
        if self.hunt(name, f, res, 'normal forms differ', want=want, got=got, conds=bad[0][2]):
            return
        at = {a for m in bad[0][1] for a, _ in m}
        raise Unsupported('normal forms differ, no witness: ' + str(bad[0][1])[:200] + ' ' + str({a: g.alg.at.info[a] for a in at})[:300])

    def stale(self, got):
        try:
            self.g.topo(got)
            return False
        except KeyError:
            return True

    def small(self, d):
        """drop residual terms that are below the tolerance on the input box"""
        if not d:
            return d
        if all(abs(c) < Fr(1, 10 ** 5) for c in d.values()):
            tot = 0.0
            for m, c in d.items():
                t = abs(float(c))
                for a, e in m:
                    t *= 4.0 ** abs(float(e))
                tot += t
            if tot < TOL:
                return {}
        return d

    def split(self, pairs, env, ties, bad, conds):
        """pairs that are not yet equal under env; enumerate the feasible truth
        values of the conditions they depend on"""
        g, s = self.g, self.solver
        self.splits += 1
        if self.splits > 3000:
            raise Unsupported('too many case splits')
        env = dict(env)
        memo = {}
        for n, (a, b) in enumerate(pairs):
            while True:
                try:
                    d = padd(g.norm(a, env, False, memo), g.norm(b, env, False, memo), -1)
                    break
                except NeedSplit as e:
                    key = e.cond
                    rest = pairs[n:]
                    z = zcmp(key[0], g.z(key[1]), g.z(key[2]))
                    tie = g.z(key[1]) != g.z(key[2])
                    self.flushax(g, s)
                    for v in (True, False):
                        if ties and key[0] == 1 and v:
                            continue
                        self.push(s)
                        if ties:
                            s.add(tie)
                        s.add(z if v else z3.Not(z))
                        if s.check() != z3.unsat:
                            e2 = dict(env)
                            e2[key] = v
                            self.split(rest, e2, ties, bad, conds + [(key, v)])
                        self.pop(s)
                        if bad:
                            return
                    return
            d = self.small(g.alg.is_zero(d))
            if d:
                d = self.pinned(a, b, env, d)
            if d and self.excluded(a, b, d):
                d = {}
            if d:
                bad.append(((a, b), d, list(conds)))
                return

    def excluded(self, a, b, d):
        """z3 shows that the conditions of this case leave no room for a difference (an equality they imply)"""
        g, s = self.g, self.solver
        info = g.alg.at.info
        if len(d) <= 200 and all(info[x][0] == 'var' and e > 0 and int(e) == e for m in d for x, e in m):
            t = z3.RealVal(0)
            for m, c in d.items():
                u = z3.RealVal(str(c))
                for x, e in m:
                    for _ in range(int(e)):
                        u = u * z3.Real(f'x{info[x][1]}')
                t = t + u
            if s.check(t != 0) == z3.unsat:
                return True
        if len(g.topo([a, b])) > 400:
            return False
        self.push(s)
        x = g.z(a) - g.z(b)
        self.flushax(g, s)
        s.add(z3.Or(x > TOL, x < -TOL))
        r = s.check()
        self.pop(s)
        return r == z3.unsat

    def pinned(self, a, b, env, d):
        """the residual again, with the inputs that the conditions of this case pin to one value"""
        g, s = self.g, self.solver
        vs = [i for i in g.topo([a, b]) if g.nodes[i][0] == 'v' and g.nodes[i][1] not in g.pin]
        if len(vs) > 40 or s.check() != z3.sat:
            return d
        m = s.model()
        fx = {}
        for i in vs:
            v = m.eval(g.z(i), model_completion=True)
            if z3.is_rational_value(v) and s.check(g.z(i) != v) == z3.unsat:
                fx[g.nodes[i][1]] = Fr(v.numerator_as_long(), v.denominator_as_long())
        if not fx:
            return d
        g.fixed = fx
        try:
            memo = {}
            return self.small(g.alg.is_zero(padd(g.norm(a, dict(env), False, memo), g.norm(b, dict(env), False, memo), -1)))
        except NeedSplit:
            return d
        finally:
            g.fixed = None

    def val(self, m, i):
        v = m.eval(self.g.z(i), model_completion=True)
        try:
            q = v.as_fraction()
            return float(q)
        except Exception:
            return float(v.approx(12).as_fraction())

    def witness(self, extra, g, conds=(), tries=60):
        """concrete inputs that satisfy the path condition (checked numerically)
        and the extra conditions [(node,bool)]"""
        s = self.solver
        vs = [(i, lo, hi, ix) for i, (lo, hi, ix) in g.vars.items()]
        need = list(self.pc_nodes) + list(extra)
        cn = [(g.mk('C', k[0], k[1], k[2]), v) for k, v in conds]
        need = need + cn
        roots = [i for i, _ in need]

        def ok(env):
            if not roots:
                return True
            vals = g.evalf(roots, env)
            return all(bool(v) == w and v == v for v, (_, w) in zip(vals, need))
        for t in range(tries):
            env = {ix: self.f32(self.rng.uniform(lo, hi)) for _, lo, hi, ix in vs}
            if ok(env):
                return env
        self.push(s)
        try:
            for i, v in list(extra) + cn:
                z = g.z(i)
                self.flushax(g, s)
                s.add(z if v else z3.Not(z))
            for t in range(6):
                if s.check() != z3.sat:
                    return None
                m = s.model()
                env = {ix: self.f32(self.val(m, i)) for i, lo, hi, ix in vs}
                if ok(env):
                    return env
                # spread the model
                for t2 in range(20):
                    e2 = {ix: self.f32(min(hi, max(lo, env[ix] + self.rng.uniform(-.2, .2)))) for i, lo, hi, ix in vs}
                    if ok(e2):
                        return e2
                s.add(z3.Or([g.z(i) != m.eval(g.z(i), model_completion=True) for i, *_ in vs]))
            return None
        finally:
            self.pop(s)

    def f32(self, v):
        import struct
        return struct.unpack('f', struct.pack('f', v))[0]

    def hunt(self, name, f, res, why, want=None, got=None, conds=()):
        """look for inputs on which real code and reference differ"""
        g = self.g
        if f[0] == 'F':
            return False
        if want is None:
            if f[0] == 'Q' and f[2] == 'eq':
                k = int(f[3])
                got = [int(x) for x in f[4:4 + k]]
                want = [int(x) for x in f[4 + k:4 + 2 * k]]
            else:
                return False
        for t in range(12):
            env = self.witness([], g, conds if t < 8 else ())
            if env is None:
                continue
            gv, wv = g.evalf(got, env), g.evalf(want, env)
            if any(differ(a, b) for a, b in zip(gv, wv)):
                if self.confirm(name, f, env, res, why, want=want, quiet=True):
                    return True
        return False

    # ----------------------------------------------------------------- replay
    def concrete(self, name, env):
        n = max(env) + 1 if env else 0
        vals = [env.get(i, 0.0) for i in range(n)]
        h = Harness(self.argv, self.env)
        out = {'R': {}, 'F': [], 'end': None, 'died': False}
        try:
            h.send('CONC ' + name + ' ' + ' '.join(repr(float(v)) for v in vals))
            while True:
                line = h.r.readline()
                if not line:
                    out['died'] = True
                    break
                p = line.split()
                if p[0] == 'R':
                    out['R'].setdefault(p[1], []).append([float(x) for x in p[2:]])
                elif p[0] == 'F':
                    out['F'].append((p[1], ' '.join(p[2:])))
                elif p[0] == 'E':
                    out['end'] = ' '.join(p[1:])
                    break
        finally:
            h.close()
        return out

    def confirm(self, name, f, env, res, what, want=None, quiet=False):
        """replay on the real code with concrete numbers"""
        out = self.concrete(name, env)
        label = f[1]
        detail = None
        if out['died']:
            detail = dict(observed='the process died')
        elif f[0] == 'F' or (f[0] == 'Q' and f[2] == 'assert'):
            if f[0] == 'F' and f[1] in ('err', 'panic'):
                if out['end'] and (out['end'].startswith('err') or out['end'].startswith('panic')):
                    detail = dict(observed=out['end'])
            for l, m in out['F']:
                if l == label:
                    detail = dict(observed=m)
        else:
            wv = self.g.evalf(want, env)
            for l, m in out['F']:
                if l == label:
                    detail = dict(observed=m, expected=wv)
            for vec in out['R'].get(label, []):
                if len(vec) != len(wv) or any(differ(a, b) for a, b in zip(vec, wv)):
                    detail = dict(observed=vec, expected=wv)
            if out['end'] and (out['end'].startswith('err') or out['end'].startswith('panic')):
                detail = dict(observed=out['end'], expected=wv)
        if detail is None:
            if not quiet:
                res.undecided.append(f'{name}: {label}: {what}: solver model did not replay')
            return False
        res.viol.append(dict(case=name, label=label, what=what, inputs={str(k): v for k, v in sorted(env.items())}, **detail))
        return True


def differ(a, b):
    if a != a and b != b:
        return False
    if a == b:
        return False
    if not (math.isfinite(a) and math.isfinite(b)):
        return True
    return abs(a - b) > 5e-4 * (1 + abs(b))


if __name__ == '__main__':
    argv = sys.argv[1:]
    binp, prop = argv[0], argv[1]
    pat = argv[2] if len(argv) > 2 else ''
    names = subprocess.run([binp, prop, 'quick', 'list'], capture_output=True, text=True).stdout.split()
    ex = Explorer([binp, prop, 'quick'])
    for n in names:
        if pat and pat not in n:
            continue
        t = time.time()
        r = ex.case(n)
        print(f'{n}: paths={r.paths} q={r.queries} lin={r.lin} alg={r.alg} out={r.outputs} t={time.time()-t:.2f}', 'VIOL' if r.viol else '', r.undecided[:3])
        for v in r.viol[:2]:
            print('   ', json.dumps(v)[:600])
