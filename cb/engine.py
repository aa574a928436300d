"""Bounded model checking of the C kernels: each job is a harness that includes
the real kernel source from /repo, CBMC decides its assertions for every value
of the symbolic inputs, and a counterexample is replayed by compiling the very
same harness with gcc (address sanitizer) on the values found."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KERN = '/repo/crates/hodu_cpu_kernels/kernels'
BUILD = os.path.join(VERIF, '.build', 'cbmc')

class Job:
    def __init__(self, name, src, functions, bounds, unwind=None, flags=(), backend='z3+sat', ignore=(), only=None, ndmax=64, cflags=(), timeout=60, unwindset=(), replay_flags=(), replace=()):
        self.__dict__.update(locals())
        del self.__dict__['self']

def sh(cmd, timeout, cwd=None, tmp=None):
    t = time.time()
    env = dict(os.environ)
    if tmp:
        env.update(TMPDIR=tmp, PATH=os.path.join(BUILD, 'bin') + ':' + env['PATH'])
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, errors='replace', env=env)
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, '', 'timeout', time.time() - t

def val(v):
    """value of a JSON trace assignment as an unsigned 64-bit number"""
    if 'binary' in v:
        return int(v['binary'], 2)
    m = re.match(r'-?\d+', v.get('data', '0'))
    return int(m.group()) & (2**64 - 1) if m else 0

def smt(d, flags, job, timeout):
    """the verification condition (all assertions at once) given to two solvers side by side; only unsat is taken from here"""
    t0 = time.time()
    f = d + '/vc.smt2'
    fl = [x for x in flags if x not in ('--json-ui', '--trace')] + ['--verbosity', '8']
    rc, o, e, _ = sh(['cbmc', d + '/b.gb', *fl, *job.flags, '--z3', '--outfile', f], timeout)
    if not os.path.exists(f):
        return 'no formula: ' + (o + e)[-200:], 0, time.time() - t0
    with open(f) as h, open(f + '2', 'w') as g:
        g.writelines(l for l in h if not l.startswith('(get-value'))
    m = re.findall(r'Generated (\d+) VCC\(s\)', o)
    n = max([int(x) for x in m] or [1])
    ps = [subprocess.Popen(c + [f + '2'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for c in (['cvc5'], [shutil.which('z3-new') or 'z3'])]
    try:
        left = list(ps)
        while left and time.time() - t0 < timeout:
            for p in list(left):
                if p.poll() is not None:
                    left.remove(p)
                    v = [l for l in p.stdout.read().split('\n') if l in ('sat', 'unsat')]
                    if v:
                        return v[0], n, time.time() - t0
            time.sleep(0.02)
        return 'unknown', n, time.time() - t0
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()

def run(job, timeout):
    d = os.path.join(BUILD, re.sub(r'[^A-Za-z0-9_.-]', '_', job.name) + '-' + hashlib.sha1(job.name.encode()).hexdigest()[:8])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = {'name': job.name, 'functions': job.functions, 'bounds': job.bounds, 'status': 'ok', 'queries': 0, 'solver': 0.0, 'time': 0.0}
    t0 = time.time()
    src = os.path.join(d, 'h.c')
    with open(src, 'w') as f:
        f.write('#include "h.h"\n' + job.src)
    inc = ['-I', os.path.join(VERIF, 'cb'), '-I', KERN]
    rc, o, e, _ = sh(['goto-cc', '-D__CPROVER', '-DND_MAX=%d' % job.ndmax, *job.cflags, *inc, '-o', d + '/a.gb', src], timeout)
    if rc != 0:
        r.update(status='build', detail=(e or o)[-600:])
        return r
    rc, o, e, _ = sh(['goto-instrument', *[x for f in job.replace for x in ('--replace-calls', f)], '--drop-unused-functions', d + '/a.gb', d + '/b.gb'], timeout)
    if rc != 0:
        r.update(status='build', detail=(e or o)[-600:])
        return r
    flags = ['--json-ui', '--trace', '--no-signed-overflow-check', '--no-undefined-shift-check', '--no-malloc-may-fail', '--slice-formula', '--object-bits', '12']
    if job.unwind:
        flags += ['--unwind', str(job.unwind)]
    for u in job.unwindset:
        flags += ['--unwindset', u]
    # the back ends are tried in turn, the first verdict counts
    res = None
    why = []
    bes = job.backend.split('+')
    for n, be in enumerate(bes):
        left = timeout - (time.time() - t0)
        if left < 1:
            break
        if be == 'smt':
            v, n, dt = smt(d, flags, job, left / 2)
            r['solver'] += dt
            if v == 'unsat':
                r.update(queries=n, backend='smt', time=time.time() - t0)
                shutil.rmtree(d, ignore_errors=True)
                return r
            why.append('smt: ' + v)
            continue
        bf = {'sat': [], 'z3': ['--z3'], 'cvc5': ['--cvc5'], 'cadical': ['--sat-solver', 'cadical']}[be]
        rc, o, e, dt = sh(['cbmc', d + '/b.gb', *flags, *bf, *job.flags], left / (len(bes) - n), tmp=d)
        r['solver'] += dt
        try:
            js = json.loads(o)
        except Exception:
            why.append(be + ': ' + ('timeout' if rc is None else (o[-300:] + e[-300:])))
            continue
        for x in js:
            if 'result' in x:
                res = x['result']
        if res is not None and any(p['status'] not in ('SUCCESS', 'FAILURE') for p in res):
            why.append(be + ': ' + ' '.join(sorted({p['status'] for p in res})))
            res = None
        if res is not None:
            r['backend'] = be
            break
        why.append(be + ': ' + ' '.join(x.get('messageText', '') for x in js if x.get('messageType') == 'ERROR')[-300:])
    if res is None:
        r.update(status='undecided', detail='; '.join(why), time=time.time() - t0)
        return r
    fails = []
    for p in res:
        desc = p.get('description', '')
        if any(re.search(i, desc) for i in job.ignore):
            continue
        if job.only and not any(re.search(i, desc) for i in job.only) and 'unwinding' not in desc:
            continue
        r['queries'] += 1
        if p['status'] == 'FAILURE':
            fails.append(p)
    unw = [p for p in fails if 'unwinding' in p.get('description', '')]
    real = [p for p in fails if p not in unw]
    if unw and not real:
        r.update(status='undecided', detail='loop bound too small: ' + unw[0].get('description', ''))
    if real:
        r['status'] = 'fail'
        r['fails'] = []
        for p in real[:6]:
            logs = {}
            for st in p.get('trace', []):
                if st.get('stepType') == 'assignment' and str(st.get('lhs', '')).startswith('nd_log['):
                    m = re.match(r'nd_log\[(\d+)', st['lhs'])
                    if m:
                        logs[int(m.group(1))] = val(st['value'])
            n = max(logs) + 1 if logs else 0
            vals = [logs.get(i, 0) for i in range(n)]
            loc = p.get('sourceLocation') or {}
            f = {'what': p.get('description', ''), 'where': '%s:%s' % (os.path.basename(loc.get('file', '?')), loc.get('line', '?')), 'function': loc.get('function', ''), 'inputs': vals}
            f.update(replay(job, d, vals))
            r['fails'].append(f)
        if not any(f['confirmed'] for f in r['fails']):
            r['status'] = 'undecided'
            r['detail'] = 'counterexample did not replay: ' + '; '.join(f['what'] for f in r['fails'])
    if r['status'] == 'ok' and r['queries'] == 0:
        r.update(status='undecided', detail='no assertion reached the solver')
    r['time'] = time.time() - t0
    if r['status'] != 'fail':
        shutil.rmtree(d, ignore_errors=True)
    return r

def replay(job, d, vals):
    src = os.path.join(d, 'h.c')
    exe = os.path.join(d, 'replay')
    inc = ['-I', os.path.join(VERIF, 'cb'), '-I', KERN]
    v = ','.join('%dull' % x for x in vals) or '0'
    rc, o, e, _ = sh(['gcc', '-g', '-O1', '-w', '-fwrapv', '-fsanitize=address', '-fsanitize=integer-divide-by-zero', '-fno-sanitize-recover=all', *job.cflags, *job.replay_flags, '-DND_VALUES=' + v, *inc, '-o', exe, src, '-lm', '-lpthread'], 120)
    if rc != 0:
        return {'confirmed': False, 'observed': 'replay does not build: ' + e[-300:]}
    rc, o, e, _ = sh([exe], 60)
    m = re.search(r'FAILS (.*)', o)
    if m:
        return {'confirmed': True, 'observed': m.group(1)}
    if rc is None:
        return {'confirmed': True, 'observed': 'does not terminate'}
    if rc == 77 or rc == 0:
        return {'confirmed': False, 'observed': 'exit %s' % rc}
    m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*)', e)
    return {'confirmed': True, 'observed': m.group(1) if m else 'process ended with %s' % rc}

def run_all(jobs, budget, per_job, workers=8):
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    # CBMC calls its SMT solver "z3": the newer of the two installed
    new = shutil.which('z3-new')
    link = os.path.join(BUILD, 'bin', 'z3')
    if new and not os.path.exists(link):
        os.symlink(new, link)
    out = []
    with cf.ThreadPoolExecutor(workers) as ex:
        def one(j):
            left = budget - (time.time() - t0)
            if left < 2:
                return {'name': j.name, 'functions': j.functions, 'bounds': j.bounds, 'status': 'undecided', 'detail': 'out of time', 'queries': 0, 'solver': 0, 'time': 0}
            return run(j, min(left, max(per_job, j.timeout)))
        out = list(ex.map(one, jobs))
    return out
