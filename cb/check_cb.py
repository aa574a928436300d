#!/usr/bin/env python3
"""the CBMC jobs of one property (called by /verif/check.py)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

ASSUME = ['CBMC jobs: within the bounds each job states; two-complement wrap of signed overflow, as the kernels are compiled in practice; allocation does not fail']

def has(prop):
    return os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), prop.lower() + '.py'))

def run(prop, tier, only=None):
    js = importlib.import_module(prop.lower()).jobs(tier)
    if only:
        js = [j for j in js if only in j.name]
    return engine.run_all(js, 500 if tier == 'quick' else 10000, 60 if tier == 'quick' else 1500)

if __name__ == '__main__':
    import time
    t = time.time()
    rs = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick', sys.argv[3] if len(sys.argv) > 3 else None)
    for r in sorted(rs, key=lambda r: -r['time']):
        if r['status'] != 'ok' or os.environ.get('SLOW') and r['time'] > float(os.environ['SLOW']):
            print(r['name'], r['status'], round(r['time'], 1), r.get('detail', ''), [(f['what'], f['where'], f['confirmed'], f['observed']) for f in r.get('fails', [])][:3])
    print(len(rs), 'jobs', sum(r['queries'] for r in rs), 'queries', {s: sum(r['status'] == s for r in rs) for s in ('ok', 'fail', 'undecided', 'build')}, round(time.time() - t, 1), 's')
