#!/usr/bin/env python3
"""symbolic-execution cases of one property (called by /verif/check.py)"""
import os, re, sys, json, time, subprocess, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF


def worker(q, out, argv, seed, budget, deadline):
    import explore
    ex = explore.Explorer(argv, seed=seed, budget=budget)
    while True:
        n = q.get()
        if n is None:
            break
        t = time.time()
        if t > deadline:
            r = explore.Result(n)
            r.undecided.append(f'{n}: not reached within the time of this tier')
            d = r.__dict__
            d['wall'] = 0.0
            out.put(d)
            continue
        ex.budget = max(1.0, min(budget, deadline - t))
        if os.environ.get('SLOW'):
            print('   start', n, flush=True)
        try:
            r = ex.case(n)
        except Exception as e:
            import traceback
            r = explore.Result(n)
            r.undecided.append(f'{n}: internal error {e!r} {traceback.format_exc()[-600:]}')
            if ex.h:
                ex.h.close()
                ex.h = None
        d = r.__dict__
        d['wall'] = time.time() - t
        if os.environ.get('SLOW'):
            print('   done', n, round(d['wall'], 1), flush=True)
        out.put(d)
    if ex.h:
        ex.h.close()
    out.put(None)


PROPS = set(re.findall(r'"(P\d\d)" =>', open(VERIF + '/sym/harness/src/cases/mod.rs').read()))
ASSUME = ['floats are real numbers (tolerance 1e-3 on the input box); NaN and overflow are outside', 'all divisors are non-zero',
          'shapes and parameters as enumerated in the cases; data symbolic within the input box']


def run_sym(prop, tier, only=None):
    binp = build.sym_harness()
    argv = [binp, prop, tier]
    names = subprocess.run(argv + ['list'], capture_output=True, text=True).stdout.split()
    if only:
        names = [n for n in names if only in n]
    if not names:
        raise build.BuildError('no cases for ' + prop)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    q, out = mp.Queue(), mp.Queue()
    for n in names:
        q.put(n)
    nw = min(8, len(names))
    ps = []
    for i in range(nw):
        q.put(None)
        p = mp.Process(target=worker, args=(q, out, argv, seed, 60 if tier == 'quick' else 1200, time.time() + (420 if tier == 'quick' else 7200)))
        p.start()
        ps.append(p)
    rs, done = [], 0
    while done < nw:
        d = out.get()
        if d is None:
            done += 1
        else:
            rs.append(d)
            if os.environ.get('SLOW') and d['wall'] > float(os.environ['SLOW']):
                print('   done', d['name'], round(d['wall'], 2), 'paths', d['paths'], 'q', d['queries'], 'solver', round(d['solver_s'], 2), flush=True)
    for p in ps:
        p.join()
    return names, rs


def run(prop, tier, only=None):
    """violations, undecided, coverage, number of cases"""
    names, rs = run_sym(prop, tier, only)
    viol = [v for r in rs for v in r['viol']]
    und = [u for r in rs for u in r['undecided']]
    cov = dict(
        cases=len(rs), cases_with_outputs=sum(1 for r in rs if r['outputs'] > 0), paths=sum(r['paths'] for r in rs), symbolic_branches=sum(r['branches'] for r in rs),
        solver_queries=sum(r['queries'] for r in rs), outputs_decided=sum(r['outputs'] for r in rs),
        queries_linear_smt=sum(r['lin'] for r in rs), queries_after_ring_normalisation=sum(r['alg'] for r in rs),
        symbolic_operations_executed=sum(r['symops'] for r in rs), solver_seconds=round(sum(r['solver_s'] for r in rs), 2),
        slowest=[(r['name'], round(r['wall'], 2)) for r in sorted(rs, key=lambda r: -r['wall'])[:5]],
        samples=[dict(case=r['name'], paths=r['paths'], outputs=r['outputs']) for r in rs[:8]])
    if os.environ.get('SLOW'):
        for r in sorted(rs, key=lambda r: -r['wall'])[:25]:
            print('   slow', r['name'], round(r['wall'], 2), 'paths', r['paths'], 'q', r['queries'], 'solver', round(r['solver_s'], 2))
    return viol, und, cov, len(rs)
