"""Builds what a check needs from /repo's current tree."""
import os, sys, subprocess, hashlib, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
KDIR = REPO + '/crates/hodu_cpu_kernels/kernels'
CFLAGS = ['-std=c11', '-O1', '-fPIC', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno', '-fno-trapping-math',
          '-w', '-DENABLE_SIMD_AUTO', '-DENABLE_THREADS', '-DUSE_BLAS', '-I' + KDIR]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


class BuildError(Exception):
    pass


def hfiles(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(BUILD + '/lock', 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def plugin():
    src = VERIF + '/sym/pass/SymPass.cpp'
    so = BUILD + '/SymPass-' + hfiles([src]) + '.so'
    if not os.path.exists(so):
        flags = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True).stdout.split()
        rc, out = sh(['clang++-18', '-O0', '-shared', '-fPIC', '-w'] + [f for f in flags if f != '-fno-exceptions'] + ['-fno-rtti', src, '-o', so + '.tmp'])
        if rc:
            raise BuildError(out)
        os.rename(so + '.tmp', so)
    return so


def kernels(so):
    heads = [os.path.join(KDIR, f) for f in os.listdir(KDIR) if f.endswith('.h')]
    hh = hfiles(heads, ' '.join(CFLAGS) + so)
    cache = BUILD + '/objcache'
    obj = BUILD + '/obj'
    os.makedirs(cache, exist_ok=True)
    shutil.rmtree(obj, ignore_errors=True)
    os.makedirs(obj)
    srcs = sorted((f for f in os.listdir(KDIR) if f.endswith('.c') and 'apple' not in f), key=lambda f: -os.path.getsize(os.path.join(KDIR, f)))

    def one(f):
        src = os.path.join(KDIR, f)
        key = os.path.join(cache, f + '-' + hfiles([src], hh) + '.o')
        if not os.path.exists(key):
            rc, out = sh(['clang-18'] + CFLAGS + ['-fpass-plugin=' + so, '-c', src, '-o', key + '.tmp'])
            if rc:
                return out
            os.rename(key + '.tmp', key)
        os.link(key, os.path.join(obj, f + '.o'))
        return None
    # the long ones first
    first = ['ops_unary.c', 'ops_binary.c', 'ops_cast.c', 'ops_indexing.c']
    srcs = [f for f in first if f in srcs] + [f for f in srcs if f not in first]
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, srcs) if e]
    if errs:
        raise BuildError('\n'.join(errs)[:4000])
    return obj


def repo_hash():
    fs = []
    for d, dn, fn in os.walk(REPO + '/crates'):
        dn[:] = [x for x in dn if x not in ('target', 'tests', 'node_modules')]
        for f in fn:
            if f.endswith(('.rs', '.toml', '.c', '.h')):
                fs.append(os.path.join(d, f))
    h = hashlib.sha256()
    for f in sorted(fs):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    with open(REPO + '/Cargo.toml', 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def cargo(crate, target, extra_env=None, args=()):
    """cargo build of a harness crate; forces the path dependencies to be
    rebuilt whenever the content of /repo differs from the last build"""
    tdir = os.path.join(BUILD, target)
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, 'repo.hash')
    rh = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != rh:
        if os.path.exists(stamp):
            os.remove(stamp)
        for prof in ('debug', 'release'):
            fp = os.path.join(tdir, prof, '.fingerprint')
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('hodu'):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CFLAGS', 'CC'):
        env.pop(k, None)
    env.update(CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', HODU_DISABLE_NATIVE='1',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    env['PATH'] = '/root/.cargo/bin:' + env['PATH']
    if extra_env:
        env.update(extra_env)
    rc, out = sh(['cargo', 'build', '--offline'] + list(args), cwd=crate, env=env)
    if rc:
        raise BuildError(out[-6000:])
    with open(stamp, 'w') as f:
        f.write(rh)
    return tdir


def sym_harness():
    lk = lock()
    try:
        so = plugin()
        obj = kernels(so)
        t = cargo(VERIF + '/sym/harness', 'sym-target', {'CC': VERIF + '/sym/symcc', 'HODUSYM_OBJ': obj})
        return t + '/debug/hodusym'
    finally:
        lk.close()


if __name__ == '__main__':
    import time
    t = time.time()
    print(sym_harness(), f'{time.time()-t:.1f}s')
