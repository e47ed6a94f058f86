"""Loads the package under the simulator and isolates executions in forks."""

import gc
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings

from . import kernel, seams

SCRATCH = os.environ.get('SIM_SCRATCH', '')
ROOT = os.path.join(SCRATCH, 'src', 'pydsm') + os.sep

OPTIONAL = {'cvxpy': 'cvxpy', 'picos': 'picos'}
_quiet = ['']


def load_third_party():
    import numpy                                           # noqa
    import scipy                                           # noqa
    import scipy.integrate                                 # noqa
    import scipy.interpolate                               # noqa
    import scipy.linalg                                    # noqa
    import scipy.optimize                                  # noqa
    import scipy.signal                                    # noqa
    import scipy.stats                                     # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot                               # noqa
    import cvxopt                                          # noqa
    import cvxopt.solvers                                  # noqa
    warnings.simplefilter('ignore')
    import cvxpy
    import picos
    # first uses import and set up more code
    x = cvxpy.Variable(2)
    p = cvxpy.Problem(cvxpy.Minimize(cvxpy.norm(x-1)), [x[0] <= .5])
    p.solve(solver='CVXOPT')
    q = picos.Problem()
    y = q.add_variable('y', 1)
    q.add_constraint(y >= 1)
    q.set_objective('min', y)
    q.solve(solver='cvxopt', verbose=0)
    import cvxopt.solvers as s
    s.options.clear()


def load_package():
    import importlib
    import pkgutil
    import pydsm
    for m in pkgutil.walk_packages(pydsm.__path__, 'pydsm.'):
        if '.tests' in m.name or '.benchmarks' in m.name or \
                'tester' in m.name:
            continue
        importlib.import_module(m.name)
    if not pydsm.__file__.startswith(ROOT):
        raise SystemExit('wrong package: ' + pydsm.__file__)


def load(package=True):
    sys.setswitchinterval(1000.)
    load_third_party()
    kernel.patch_threading(ROOT)
    seams.install(ROOT)
    if package:
        load_package()
        warnings.resetwarnings()
        warnings.simplefilter('default')
        seams.patch_hashes()
        seams.install_backends()
        kernel.monitor(ROOT)
        kernel.warm(ROOT)
    gc.collect()
    gc.freeze()


# ---- forks -------------------------------------------------------------

def _quiet_output():
    n = os.open(os.devnull, os.O_RDWR)
    os.dup2(n, 0)
    os.dup2(n, 1)
    if not os.environ.get('SIM_NOISY'):
        os.dup2(n, 2)


def forked(fn, timeout=120.):
    """Run fn() in a forked child.

    Returns ('ok', result), ('error', text), ('signal', n) or ('timeout', s).
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            _quiet_output()
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            gc.set_threshold(0)              # enabled, yet never by itself
            try:
                out = ('ok', fn())
            except BaseException:
                out = ('error', traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            n = 0
            while n < len(data):
                n += os.write(w, data[n:n+1048576])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic()+timeout
    late = False
    while True:
        left = end-time.monotonic()
        if left <= 0:
            late = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            late = True
            break
        b = os.read(r, 1048576)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if late:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return ('timeout', timeout)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return ('signal', os.WTERMSIG(status))
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return ('error', 'child ended without an answer')
