#!/usr/bin/env python3
"""the Kani harnesses of one property (called by /verif/check.py)."""
import json, os, re, shutil, subprocess, sys, time
D = os.path.dirname(os.path.abspath(__file__))
C, B = D + '/crate', os.path.dirname(D) + '/.build'
ENV = dict(os.environ, CC=D + '/fakecc', CARGO_NET_OFFLINE='true')
ASSUME = ['Kani jobs: within the bounds each harness states (loops unwound to the given depth, with unwinding assertions); allocation does not fail; '
          'error message formatting is replaced by an empty string']
KANI = ['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '--no-memory-safety-checks', '--no-assertion-reach-checks']


def source(prop):
    return f'{C}/src/{prop.lower()}.rs'


def has(prop):
    return os.path.exists(source(prop))


def harnesses(prop):
    """(name, unwind, thorough only, bounds, functions)"""
    s = open(source(prop)).read()
    return [(n, int(u), bool(t), bo.strip(), fs.replace(',', ' ').split())
            for bo, fs, t, u, n in re.findall(r'//@ ([^|\n]*)\|([^|\n]*?)(\| thorough)?\n\s+(\d+) (?:\[\w+\] )?(\w+) \{', s)]


def build_error(out):
    import build
    raise build.BuildError(out[-4000:])


def parse(text):
    """(status, failed assertions, number of checks, functions, time)"""
    t = re.search(r'Verification Time: ([\d.]+)s', text)
    text, soft = re.subn(r'Failed Checks: (?:NaN on|arithmetic overflow on floating-point)[^\n]*\n(?: File: [^\n]*\n)?', '', text)
    m = re.search(r'\*\* (\d+) of (\d+) failed', text)
    n, failed = (int(m[2]), re.findall(r'Failed Checks: (.*)\n(?: File: "([^"]*)", line (\d+), in (\S+))?', text)) if m else (0, [])
    if 'VERIFICATION:- SUCCESSFUL' in text:
        st = 'ok'
    elif failed:
        st = 'fail'
    elif m and soft and int(m[1]) == soft and 'VERIFICATION:- FAILED' in text:
        st = 'ok'  # only float arithmetic giving NaN or infinity, which is what it should give
    else:
        st = 'undecided'
    return st, failed, n, float(t[1]) if t else 0.0


def playback(text):
    """the values of each generated test: one line of bytes per value"""
    res = []
    for body in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', text, re.S):
        res.append([v.replace(',', ' ').split() for v in re.findall(r'^\s*vec!\[([\d, ]*)\]', body, re.M)])
    return res


def replayer():
    p = subprocess.run(['cargo', 'build', '--offline', '--bin', 'replay'], cwd=C, capture_output=True, text=True,
                       env=dict(os.environ, CARGO_TARGET_DIR=B + '/kani-replay', CARGO_NET_OFFLINE='true'))
    return None if p.returncode else B + '/kani-replay/debug/replay'


def confirm(prop, name, limit):
    """rerun with values printed, run the harness natively on them"""
    m = prop.lower()
    p = subprocess.run(KANI + ['-Z', 'concrete-playback', '--concrete-playback=print', '--exact', '--harness', f'{m}::{name}',
                               '--harness-timeout', f'{limit}s', '--output-format=terse'],
                       cwd=C, capture_output=True, text=True, env=dict(ENV, CARGO_TARGET_DIR=B + '/kani'))
    exe = replayer()
    found = []
    for i, vals in enumerate(playback(p.stdout)):
        os.makedirs(B + '/replay', exist_ok=True)
        f = f'{B}/replay/{prop}-{name}-{i}.vals'
        open(f, 'w').write('\n'.join(' '.join(v) for v in vals) + '\n')
        if exe is None:
            continue
        try:
            r = subprocess.run([exe, f'{m}::{name}', f], capture_output=True, text=True, timeout=20)
            code, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            code, err = 'no end within 20 s', ''
        if code not in (0, 77, 78):
            found.append((f, f'native run: exit {code}; ' + ' '.join(err.split())[:300]))
    return found


def run(prop, tier, only=None):
    t0 = time.time()
    m = prop.lower()
    budget, each = (560, 300) if tier == 'quick' else (9000, 3000)
    hs = [h for h in harnesses(prop) if (tier == 'thorough' or not h[2]) and (not only or only in h[0])]
    if not hs:
        return []
    td = f'{B}/kani'
    for d in (f'{C}/result_output_dir', f'{td}/result_output_dir'):
        shutil.rmtree(d, ignore_errors=True)
    cmd = KANI + ['-j', '8', '--output-format=terse', '--output-into-files', '--harness-timeout', f'{each}s', '--exact']
    for h in hs:
        cmd += ['--harness', f'{m}::{h[0]}']
    p = subprocess.Popen(cmd, cwd=C, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, CARGO_TARGET_DIR=td), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=budget)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
    if 'error: could not compile' in out or 'error[E' in out or 'error: Failed' in out:
        build_error(out)
    od = next((d for d in (f'{td}/result_output_dir', f'{C}/result_output_dir') if os.path.isdir(d)), None)
    rs = []
    for name, unwind, _, bounds, fs in hs:
        f = od and f'{od}/{m}::{name}'
        text = open(f).read() if f and os.path.exists(f) else ''
        st, failed, n, sec = parse(text)
        r = dict(name=name, status=st, fails=[], queries=n, solver=sec, time=sec or each, functions=fs, bounds=f'{bounds}; loops unwound {unwind} times', detail='')
        if st == 'undecided':
            r['detail'] = 'no verdict within the time limit'
        rs.append(r)
        r['_failed'] = failed
    for r in rs:
        failed = r.pop('_failed')
        if r['status'] != 'fail':
            continue
        real = [x for x in failed if 'unwinding assertion' not in x[0] and 'not currently supported' not in x[0]]
        if not real:
            r['status'], r['detail'] = 'undecided', 'bound too small: ' + str(failed[0])
            continue
        c = confirm(prop, r['name'], each)
        if not c:
            r['status'], r['detail'] = 'undecided', 'counterexample not confirmed by a native run: ' + str(real[:2])
            continue
        r['fails'] = [dict(what=f'{r["name"]}: {real[0][0]}', where=real[0][3] or r['name'], confirmed=True, values=c[0][0],
                           native='replay ' + f'{m}::{r["name"]} ' + c[0][0], observed=c[0][1])]
    return rs


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(D) + '/sym/driver')
    t = time.time()
    rs = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick', sys.argv[3] if len(sys.argv) > 3 else None)
    for r in sorted(rs, key=lambda r: -r['time']):
        if r['status'] != 'ok' or os.environ.get('SLOW') and r['time'] > float(os.environ['SLOW']):
            print(r['name'], r['status'], round(r['time'], 1), r['detail'], [(f['what'], f['where'], f['observed']) for f in r['fails']][:3])
    print(len(rs), 'harnesses', sum(r['queries'] for r in rs), 'checks', {s: sum(r['status'] == s for r in rs) for s in ('ok', 'fail', 'undecided')}, round(time.time() - t, 1), 's')
