#!/usr/bin/env python3
"""One table of the properties; writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'crates/hodu_core/src/'
K = 'crates/hodu_cpu_kernels/kernels/'
SYM = ('symbolic execution of the compiled Rust and C code (LLVM IR instrumentation, regenerated from /repo) with symbolic tensor data; '
       'assertions decided by z3 over the reals')
SYMN = ('For every enumerated shape, layout and parameter: equality with an independently written reference for all real data in the stated box, on every '
        'feasible execution path (solver-decided). Floats are treated as reals, so rounding, NaN and overflow are outside; shapes are '
        'enumerated, not symbolic. Trusts the LLVM-18 instrumentation pass, the term normaliser and z3; counterexamples are replayed on the concrete code.')
CB = 'bounded model checking (CBMC) of the real C kernels with symbolic data, layout and parameters'
KA = 'bounded model checking (Kani/CBMC) of the real Rust functions with symbolic inputs'
CBN = ('CBMC: every value of the symbolic inputs within the stated bounds (loop unwinding checked complete), the kernel source included unmodified from /repo; counterexamples '
       'are replayed with gcc and the address sanitizer. Bounds: small ranks, extents and strides; the C compiler and its optimiser are trusted.')
KAN = ('Kani: every value of the symbolic inputs within the stated bounds, on the MIR of the unmodified crate; counterexamples are replayed as native runs.')
NA = {}
P = []


def p(id, title, statement, over, text, why, files, mech, engine=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    P[-1]['_e'] = (engine, note, na)


exec(open(V + '/tools/props.py').read())

with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k != '_e'}) + '\n')
checks, nas = [], []
for x in P:
    e, note, na = x['_e']
    i = x['id']
    if e is None:
        nas.append(dict(property=i, reason=na or 'no check built yet'))
        continue
    if e:
        cmd, lvl = 'python3-vt check.py', 'exploration'
        parts = e.split('+')
        tech = '; '.join({'sym': SYM, 'cbmc': CB, 'kani': KA}[x] for x in parts)
        n = ' '.join({'sym': SYMN, 'cbmc': CBN, 'kani': KAN}[x] for x in parts)
    checks.append(dict(property=i, quick_cmd=f'{cmd} {i} quick', thorough_cmd=f'{cmd} {i} thorough', evidence_file=f'evidence/{i}.json',
                       technique=tech, level=lvl, level_note=' '.join(s for s in (note, n) if s)))
m = dict(version=1, setup_cmd='python3-vt sym/driver/build.py', checks=checks, not_applicable=nas,
         notes='No hooks: the checks link or include the unmodified crates and kernels of /repo. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
