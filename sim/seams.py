"""Seams at the border between the package and third party code.

The wrappers are installed before the package is imported.  Each records, in
the operation running in the current simulated thread, the options that really
reached the third party routine, and can inject the faults planned for it.
"""

import sys

import numpy

from . import kernel

_root = ['']


def _ctx():
    k = kernel.K
    if k is None or k.cur is None:
        return None
    return k.cur.top


def _caller_is_target(depth=2):
    f = sys._getframe(depth)
    return bool(_root[0]) and f.f_code.co_filename.startswith(_root[0])


def _record(name, info):
    c = _ctx()
    if c is not None:
        c.seams.append((name, info))


def _digits(x):
    return ' '.join('%.8e' % (v+0.) for v in
                    numpy.asarray(x, dtype=float).ravel())


class SolverCrash(ArithmeticError):
    """Breakdown of the (simulated) numerical solver."""


_RAISED = {'crash': SolverCrash, 'memory': kernel.SimMemoryError,
           'interrupt': kernel.SimInterrupt, 'rank': ValueError}


def _solver_fault(name, real, args, kwargs, get_options):
    """Run the solver, possibly as the fault plan says."""
    c = _ctx()
    if c is None:
        return real(*args, **kwargs)
    i = c.solver_calls
    c.solver_calls += 1
    plan = c.solver_plan[i] if i < len(c.solver_plan) else None
    if not plan:
        return real(*args, **kwargs)
    k = kernel.K
    mode = plan['mode']
    k.fault('solver_' + mode)
    k.emit('t%d' % k.cur.tid, 'solver', name, mode)
    if mode == 'truncate':
        o = dict(get_options())
        o['maxiters'] = plan.get('iters', 3)
        kwargs = dict(kwargs, options=o)
        return real(*args, **kwargs)
    if mode in _RAISED:
        e = _RAISED[mode]('injected solver failure')
        c.injected.append(e)
        raise e
    r = real(*args, **kwargs)
    if mode == 'primal_infeasible':
        r = dict(r, status='primal infeasible', x=None, s=None)
        r['primal objective'] = None
        r['dual objective'] = 1.0
        r['residual as primal infeasibility certificate'] = 1e-9
    elif mode == 'dual_infeasible':
        x = r['x']
        if x is not None:
            x = 1.0*x
            for j in range(len(x)):
                x[j] = 0.25*((j*7) % 5) - 0.4
        r = dict(r, status='dual infeasible', x=x, y=None, z=None)
        r['primal objective'] = -1.0
        r['dual objective'] = None
    elif mode == 'unknown':
        # stagnation far from the solution
        x = r['x']
        if x is not None:
            x = 1.0*x
            for j in range(len(x)):
                x[j] = x[j]*(1+plan.get('off', 0.5)*(((j*5) % 7)/3.-1))
        r = dict(r, status='unknown', x=x)
        if r.get('primal objective') is None:
            r['primal objective'] = 1.0
    return r


def _scs_fault(real, data, cone, kw):
    c = _ctx()
    if c is None:
        return real(data, cone, **kw)
    i = c.solver_calls
    c.solver_calls += 1
    plan = c.solver_plan[i] if i < len(c.solver_plan) else None
    if not plan:
        return real(data, cone, **kw)
    k = kernel.K
    mode = plan['mode']
    k.fault('solver_' + mode)
    k.emit('t%d' % k.cur.tid, 'solver', 'scs', mode)
    if mode == 'truncate':
        return real(data, cone, **dict(kw, max_iters=max(
            1, plan.get('iters', 3))))
    if mode in _RAISED:
        e = _RAISED[mode]('injected solver failure')
        c.injected.append(e)
        raise e
    r = real(data, cone, **kw)
    code, text = {'primal_infeasible': (-2, 'infeasible'),
                  'dual_infeasible': (-1, 'unbounded'),
                  'unknown': (2, 'solved (inaccurate)')}[mode]
    info = dict(r['info'], status_val=code, status=text)
    r = dict(r, info=info)
    if mode == 'unknown':
        x = r['x'].copy()
        for j in range(len(x)):
            x[j] *= 1+plan.get('off', 0.5)*(((j*5) % 7)/3.-1)
        r['x'] = x
    return r


def install(root):
    """Install the wrappers; root is the prefix of the package sources."""
    _root[0] = root

    import scipy.integrate
    real_quad = scipy.integrate.quad

    def quad(func, a, b, args=(), full_output=0, epsabs=1.49e-8,
             epsrel=1.49e-8, limit=50, points=None, **kw):
        if _caller_is_target():
            pts = None if points is None else tuple(float(p) for p in points)
            _record('quad', {'epsabs': epsabs, 'epsrel': epsrel,
                             'limit': limit, 'points': pts})
        return real_quad(func, a, b, args, full_output, epsabs, epsrel,
                         limit, points, **kw)
    scipy.integrate.quad = quad

    import scipy.optimize
    real_min = scipy.optimize.minimize

    def minimize(fun, x0, args=(), method=None, *a, **kw):
        if _caller_is_target():
            _record('minimize', {'method': str(method).lower(),
                                 'options': dict(kw.get('options') or {}),
                                 'start': _digits(x0)})
        return real_min(fun, x0, args, method, *a, **kw)
    scipy.optimize.minimize = minimize
    real_bfgs = scipy.optimize.fmin_l_bfgs_b

    def fmin_l_bfgs_b(*a, **kw):
        if _caller_is_target():
            _record('fmin_l_bfgs_b', {})
        return real_bfgs(*a, **kw)
    scipy.optimize.fmin_l_bfgs_b = fmin_l_bfgs_b

    import cvxopt
    import cvxopt.solvers
    import cvxopt.coneprog as cp
    import cvxopt.cvxprog as cv

    def wrap(mod, name):
        real = getattr(mod, name)

        def w(*args, **kwargs):
            opts = kwargs.get('options')
            if opts is None:
                opts = mod.options
            kkt = kwargs.get('kktsolver')
            if kkt is None and name == 'conelp' and len(args) > 8:
                kkt = args[8]
            _record('cvxopt', dict(opts, solver=name, kkt=kkt if isinstance(
                kkt, (str, type(None))) else 'custom'))
            return _solver_fault(name, real, args, kwargs, lambda: opts)
        w.__name__ = name
        setattr(mod, name, w)
        setattr(cvxopt.solvers, name, w)
    wrap(cp, 'conelp')
    wrap(cv, 'cpl')

    try:
        import scs
        real_scs = scs.solve

        def scs_solve(data, cone, **kw):
            _record('scs', dict(kw))
            return _scs_fault(real_scs, data, cone, kw)
        scs.solve = scs_solve
    except ImportError:
        pass
    try:
        import cvxpy
        real_solve = cvxpy.Problem.solve

        def solve(self, *a, **kw):
            if _caller_is_target():
                _record('cvxpy', dict(kw))
            return real_solve(self, *a, **kw)
        cvxpy.Problem.solve = solve
    except ImportError:
        pass
    try:
        import picos
        real_psolve = picos.Problem.solve

        def psolve(self, *a, **kw):
            if _caller_is_target():
                _record('picos', dict(kw))
            return real_psolve(self, *a, **kw)
        picos.Problem.solve = psolve
    except ImportError:
        pass


def install_backends():
    """Tell which compiled simulator runs (names are not assumed)."""
    def wrap(f, which):
        def w(*a, **k):
            _record('compiled', {'backend': which})
            return f(*a, **k)
        return w
    for name in sorted(sys.modules):
        if not name.startswith('pydsm.'):
            continue
        m = sys.modules[name]
        if getattr(m, '__file__', '') and m.__file__.endswith('.so'):
            continue
        for a, f in list(vars(m).items()):
            mod = getattr(f, '__module__', None) or ''
            if type(f).__name__ == 'cython_function_or_method' and \
                    mod.startswith('pydsm.') and \
                    'cblas' in mod.rsplit('.', 1)[-1]:
                setattr(m, a, wrap(f, 'cblas'))
            elif type(f).__name__ == 'cython_function_or_method' and \
                    mod.startswith('pydsm.') and \
                    'scipy_blas' in mod.rsplit('.', 1)[-1]:
                setattr(m, a, wrap(f, 'scipy_blas'))


# ---- identity hashes ----------------------------------------------------
# The order of sets of plain objects depends on their addresses.  Under the
# simulator the hash of an object is the order in which it was first hashed,
# scrambled by a factor that belongs to the plan of the run.

_next = [0]
_factor = [1]


def reset_hashes(factor=1):
    _next[0] = 0
    _factor[0] = factor


def _identity_hash(self):
    try:
        return object.__getattribute__(self, '_sim_identity')
    except AttributeError:
        pass
    _next[0] += 1
    h = (_next[0]*_factor[0]) % 2147483647
    try:
        object.__setattr__(self, '_sim_identity', h)
    except (AttributeError, TypeError):
        return object.__hash__(self)
    return h


def patch_hashes(names=None):
    n = 0
    for name in sorted(names or sys.modules):
        if name == 'pydsm' or name.startswith('pydsm.'):
            for o in list(vars(sys.modules[name]).values()):
                if isinstance(o, type) and o.__module__ == name and \
                        o.__hash__ is object.__hash__ and \
                        not issubclass(o, BaseException):
                    try:
                        o.__hash__ = _identity_hash
                        n += 1
                    except TypeError:
                        pass
    return n
