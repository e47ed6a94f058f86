"""Prepare a scratch copy of the package from /repo's working tree and run.

Usage: launch.py CHECK-ID [--replay FILE] [options passed on to sim.main]
"""

import fcntl
import hashlib
import os
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
PY = os.environ.get('SIM_PYTHON', '/opt/venv/bin/python')
EXT = ('_simulateDSM_scipy_blas', '_simulateDSM_cblas')
BUILD_SUFFIX = ('.pyx', '.pxi', '.pxd', '.h', '.c')


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('PYTHON', 'VERIF_INTERNAL'))}
    e.update(SETUPTOOLS_SCM_PRETEND_VERSION='0.15.2',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             MKL_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    return e


def sha(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def sources():
    """Files that determine the compiled extensions (relative to REPO)."""
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds[:] = sorted(x for x in ds if x != '__pycache__')
        for f in sorted(fs):
            if f.endswith(BUILD_SUFFIX) and not (
                    f.endswith('.c') and os.path.exists(
                        os.path.join(d, f[:-2] + '.pyx'))):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    for f in ('setup.py', 'pyproject.toml'):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return out


def key():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode() + b'\0' + sha(os.path.join(REPO, f)).encode())
    h.update(sys.version.encode())
    return h.hexdigest()[:32]


def stamp_ok():
    """Do the extensions in /repo come from the sources in there now?"""
    stamp = os.path.join(REPO, 'build', '.ext-stamp')
    try:
        with open(stamp) as f:
            known = dict(reversed(l.split(None, 1)) for l in
                         (x.strip() for x in f) if ' ' in l)
    except (OSError, ValueError):
        return False
    known = {os.path.normpath(p.lstrip('*')): s for p, s in known.items()}
    want = [s for s in sources() if not s.endswith('.c')]
    so = [os.path.join('src', 'pydsm', 'delsig', e +
                       sysconfig.get_config_var('EXT_SUFFIX')) for e in EXT]
    for f in want + so:
        p = os.path.join(REPO, f)
        if not os.path.exists(p) or known.get(os.path.normpath(f)) != sha(p):
            return False
    return True


def copy_tree(dst):
    def ignore(d, names):
        return [n for n in names if n == '__pycache__' or
                n.endswith(('.so', '.pyc', '.egg-info'))]
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'),
                    ignore=ignore)
    v = os.path.join(dst, 'src', 'pydsm', '_version.py')
    if not os.path.exists(v):
        with open(v, 'w') as f:
            f.write("version = __version__ = '0.15.2'\n")


def build(dst):
    """Build the extensions in dst; returns their paths by name."""
    w = os.path.join(dst, 'build')
    os.makedirs(w)
    for f in ('setup.py', 'pyproject.toml', 'README.md', 'README.rst',
              'MANIFEST.in', 'setup.cfg', 'COPYING', 'LICENSE'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, w)
    copy_tree(w)
    for d, ds, fs in os.walk(os.path.join(w, 'src')):
        for f in fs:
            if f.endswith('.c') and os.path.exists(
                    os.path.join(d, f[:-2] + '.pyx')):
                os.unlink(os.path.join(d, f))
    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace'], cwd=w,
                       env=base_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    out = {}
    d = os.path.join(w, 'src', 'pydsm', 'delsig')
    for e in EXT:
        p = os.path.join(d, e + sysconfig.get_config_var('EXT_SUFFIX'))
        if os.path.exists(p):
            out[e] = p
    if r.returncode or '_simulateDSM_scipy_blas' not in out:
        sys.stderr.write(r.stdout.decode(errors='replace')[-4000:])
        raise SystemExit('the extensions of the package do not build')
    return out


def prepare(dst):
    """Scratch copy of the package, with extensions, in dst/src."""
    copy_tree(dst)
    target = os.path.join(dst, 'src', 'pydsm', 'delsig')
    if stamp_ok():
        for e in EXT:
            f = e + sysconfig.get_config_var('EXT_SUFFIX')
            shutil.copy(os.path.join(REPO, 'src', 'pydsm', 'delsig', f),
                        target)
        return 'copied'
    cache = os.path.join(HERE, '.cache', 'ext-' + key())
    how = 'cached'
    os.makedirs(os.path.dirname(cache), exist_ok=True)
    with open(cache + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.isdir(cache):
            how = 'built'
            tmp = cache + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            for e, p in build(dst).items():
                shutil.copy(p, tmp)
            os.rename(tmp, cache)
    for f in os.listdir(cache):
        shutil.copy(os.path.join(cache, f), target)
    return how


def main():
    args = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix='pydsm-sim-')
    proc = None

    def stop(signum, frame):
        raise SystemExit(128 + signum)
    signal.signal(signal.SIGTERM, stop)
    rc = 3
    try:
        how = prepare(scratch)
        if args[:1] == ['setup']:
            print('extensions:', how)
            rc = 0
        else:
            env = base_env()
            if os.environ.get('SIM_HASHSEED'):
                env['PYTHONHASHSEED'] = os.environ['SIM_HASHSEED']
            env['PYTHONPATH'] = os.path.join(scratch, 'src') + ':' + HERE
            env['SIM_SCRATCH'] = scratch
            env['SIM_EXT'] = how
            proc = subprocess.Popen([PY, '-m', 'sim.main'] + args,
                                    cwd=scratch, env=env,
                                    start_new_session=True)
            rc = proc.wait()
            if rc < 0:
                rc = 3
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
