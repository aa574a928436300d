#!/usr/bin/env python3
"""check.py <property> <quick|thorough> [substring]: every solver-based check of one property.

Three engines decide the obligations, whichever have some for the property:
  sym  symbolic execution of the compiled Rust + C code, z3 (sym/)
  cb   CBMC on the C kernels (cb/)
  kn   Kani on the Rust functions (kn/)
Exit 0: nothing violated.  1: violation (VIOLATION line).  2: no verdict."""
import json, os, sys, time
V = os.path.dirname(os.path.abspath(__file__))
for d in ('sym/driver', 'cb', 'kn'):
    sys.path.insert(0, os.path.join(V, d))


def known(prop):
    """known_findings.txt: 'finding: property=<id> case=<case> label=<label> <text>'"""
    ks = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                f = dict(x.split('=', 1) for x in line.split()[1:] if '=' in x and x.split('=')[0] in ('property', 'case', 'label'))
                if f.get('property') == prop:
                    ks.append((f.get('case'), f.get('label'), line.split(':', 1)[1].strip()))
    return ks


def bounded(rs, kind):
    """coverage of a CBMC or Kani run"""
    viol = [dict(case=r['name'], label=f['where'], **f) for r in rs if r['status'] == 'fail' for f in r['fails'] if f['confirmed']]
    und = [f"{r['name']}: {r['status']} {r.get('detail', '')}" for r in rs if r['status'] in ('undecided', 'build')]
    fs = sorted({f for r in rs for f in r['functions']})
    cov = dict(jobs=len(rs), decided=sum(r['status'] in ('ok', 'fail') for r in rs), properties_decided=sum(r['queries'] for r in rs),
               solver_seconds=round(sum(r['solver'] for r in rs), 2), functions_encoded=fs,
               bounds=sorted({r['bounds'] for r in rs}), slowest=[(r['name'], round(r['time'], 1)) for r in sorted(rs, key=lambda r: -r['time'])[:5]],
               samples=[dict(job=r['name'], status=r['status'], bounds=r['bounds']) for r in rs[:8]])
    return viol, und, cov


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    viol, und, cov, units, parts, assume = [], [], {}, 0, [], []
    import build
    try:
        import check_sym
        if prop in check_sym.PROPS:
            v, u, c, n = check_sym.run(prop, tier, only)
            viol += v; und += u; units += n; cov['symbolic_execution'] = c
            parts.append(f"{c['cases']} cases, {c['paths']} paths, {c['outputs_decided']} outputs, {c['solver_queries']} queries")
            assume += check_sym.ASSUME
        for name in ('cb', 'kn'):
            m = __import__('check_' + name)
            if m.has(prop):
                rs = m.run(prop, tier, only)
                v, u, c = bounded(rs, name)
                viol += v; und += u; units += len(rs); cov['cbmc' if name == 'cb' else 'kani'] = c
                parts.append(f"{len(rs)} {'CBMC' if name == 'cb' else 'Kani'} jobs, {c['properties_decided']} assertions")
                assume += m.ASSUME
    except build.BuildError as e:
        print('BUILD FAILED\n' + str(e))
        sys.exit(2)
    ks, rest, seen = known(prop), [], set()
    for v in viol:
        k = next((k for k in ks if k[0] == v['case'] and (k[1] is None or k[1] == v['label'])), None)
        if k:
            if k not in seen:
                print(f'KNOWN-FINDING: {k[2]}')
            seen.add(k)
        else:
            rest.append(v)
    s, b = cov.get('symbolic_execution', {}), [cov[k] for k in ('cbmc', 'kani') if k in cov]
    coverage = dict(
        evaluations=s.get('paths', 0) + sum(c['jobs'] for c in b),
        distinct_nontrivial=s.get('cases_with_outputs', 0) + sum(c['decided'] for c in b),
        rule='symbolic execution: a case is one API program on symbolic data, an evaluation one feasible execution path of it through the real code, '
             'non-trivial if at least one output term was compared with the reference; CBMC and Kani: an evaluation is one harness over the real functions, '
             'decided by the solver for every value of its symbolic inputs',
        samples=[x for c in ([s] if s else []) + b for x in c.get('samples', [])][:12],
        undecided=und[:50], undecided_count=len(und), known_findings=[k[2] for k in seen], **cov)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=coverage, assumptions=assume, wall_s=round(time.time() - t0, 2), violations=len(rest))
    if not only:
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop}: ' + '; '.join(parts) + f', {len(und)} undecided, {len(rest)} violations, {ev["wall_s"]} s')
    for u in und[:20]:
        print('UNDECIDED', u[:500])
    if rest:
        os.makedirs(f'{V}/.build/replay', exist_ok=True)
        path = f'{V}/.build/replay/{prop}.json'
        json.dump(rest, open(path, 'w'), indent=1)
        for v in rest[:8]:
            print('   ', v['case'], v['label'], str(v['what'])[:300], str(v.get('observed', ''))[:120])
        print(f'VIOLATION property={prop} replay={path}')
        sys.exit(1)
    # undecided units are reported in the evidence; a check that decided little gives no verdict
    sys.exit(2 if units == 0 or len({u.split(':')[0] for u in und}) > units // 4 else 0)


if __name__ == '__main__':
    main()
