"""One simulated run: what the property modules execute in a forked child."""

import copy
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np

from . import kernel, ops, seams


class Found(Exception):
    """A violation that ends the run at once."""


def exc_repr(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


def chain(e):
    """e and all the exceptions it was raised from."""
    out = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is y for y in out):
            continue
        out.append(x)
        todo += [x.__cause__, x.__context__]
    return out


class Run(object):

    def __init__(self, plan, refs=None):
        self.plan = plan
        self.refs = refs or {}
        self.k = kernel.Kernel()
        kernel.install(self.k)
        seams.reset_hashes(plan.get("hash") or 1)
        self.viol = []
        self.states = set()
        self.info = {}
        self.functions = []              # returned by the package
        self.events = 0
        warnings.resetwarnings()
        warnings.simplefilter('always')
        self._show = warnings.showwarning
        warnings.showwarning = self._warned

    def _warned(self, message, category, filename, lineno, file=None,
                line=None):
        t = self.k.cur
        if t is not None and t.top is not None:
            t.top.warns.append((category.__name__, str(message)[:200]))

    # ---- verdicts ------------------------------------------------------
    def violate(self, kind, **detail):
        self.k.emit('VIOLATION', kind,
                    ' '.join('%s=%s' % (k, detail[k])
                             for k in sorted(detail)))
        self.viol.append({"kind": kind, "detail": {
            k: str(v)[:600] for k, v in detail.items()}})

    def state(self, *what):
        """Record an abstract state reached (for the coverage measure)."""
        h = hashlib.blake2b(repr(what).encode(), digest_size=6).hexdigest()
        self.states.add(h)

    # ---- operations ----------------------------------------------------
    def ref(self, op):
        return self.refs[op_key(op)]

    def issue(self, op, env=None, ctx=None):
        """Issue one operation in the current simulated thread."""
        t = self.k.cur
        ctx = ctx or kernel.OpCtx(op["f"])
        env = env or ops.Env()
        self.k.emit('t%d' % t.tid, 'call', op["f"])
        res = self.k.call(ctx, lambda: ops.run(op, env))
        self.events += ctx.n
        self.functions += [(op,)+x for x in env.functions]
        self.k.emit('t%d' % t.tid, 'done', op["f"], res[0],
                    ops.digest(res[1]) if res[0] == 'ok' else
                    type(res[1]).__name__, 'n=%d' % ctx.n)
        return res

    def result(self):
        k = self.k
        if k.aborted and not self.viol:
            if k.aborted[0] == 'harness':
                raise RuntimeError(k.aborted[1])
            self.violate(k.aborted[0], detail=k.aborted[1])
        return {"viol": self.viol, "log": k.log, "hash": k.log_hash(),
                "steps": k.steps, "events": self.events,
                "switches": k.switches,
                "inter": k.interleaving.hexdigest() if k.switches else None,
                "faults": k.faults, "probes": k.probes,
                "states": sorted(self.states), "info": self.info}


def op_key(op):
    import json
    return json.dumps(op, sort_keys=True)


def outcome(res, tol_name=None):
    """Picklable form of the result of Run.issue."""
    if res[0] == 'ok':
        return ('ok', res[1])
    return ('exc', type(res[1]).__name__, str(res[1])[:300])


def matches(res, ref, name):
    """Compare a result with the reference outcome: None or the difference."""
    o = outcome(res)
    if o[0] != ref["out"][0]:
        return '%s instead of %s' % (brief(o), brief(ref["out"]))
    if o[0] == 'exc':
        if o[1:] != ref["out"][1:]:
            return '%s instead of %s' % (brief(o), brief(ref["out"]))
        return None
    tol = ops.TOL.get(name, 1e-9)
    return ops.same(o[1], ref["out"][1], rtol=tol, atol=1e-12)


def brief(o):
    if o[0] == 'exc':
        return '%s(%s)' % (o[1], o[2])
    s = repr(o[1]).replace('\n', ' ')
    return 'result ' + (s if len(s) < 200 else s[:200]+'...')


def make_ref(op):
    """Run op alone, with tracing; executed in a pristine forked child."""
    run = Run({})

    def body(t):
        ctx = kernel.OpCtx(op["f"], trace=True)
        env = ops.Env()
        if 'callback' in ops.TAGS[op["f"]]:
            # same call path as in the runs
            env = ops.Env(callback=lambda f, a, k: _cb(run, f, a, k))
        res = run.issue(op, env, ctx)
        return res, ctx, env
    k = run.k
    r = kernel.solo(k, body)
    if r is None:
        return {"dead": ('aborted',) + k.aborted}
    res, ctx, env = r
    return {"out": outcome(res), "n": ctx.n, "trace": ctx.trace,
            "safe": [kernel.safe_site(c, l) for c, l in k.site_list],
            "sites": [kernel.site_name(c, l) for c, l in k.site_list],
            "seams": ctx.seams, "warns": ctx.warns, "cb": ctx.cb,
            "solver_calls": ctx.solver_calls, "mod": env.modified()}


def _cb(run, f, a, k):
    c = run.k.cur.top
    c.cb += 1
    return f(*a, **k)


def budget(ref):
    return 20*ref["n"]+2000000


def triggers(ref, specs):
    """Resolve the fault/switch specifications of a plan on a reference."""
    out = []
    for s in specs:
        if "at" in s:
            at = s["at"]
        elif "pos" in s:
            at = 1+int(s["pos"]*ref["n"])
        else:
            at = kernel.resolve(ref, s["site"], s["occ"],
                                s["do"] == 'raise', s.get("tree"))
        if at is None:
            continue
        out.append(dict(s, at=at))
    return out


# ---- observable configuration -------------------------------------------

_owners = None


def option_owners():
    """The functions of the package that carry default_options."""
    global _owners
    if _owners is None:
        import sys
        found = {}
        for name in sorted(sys.modules):
            if name != 'pydsm' and not name.startswith('pydsm.'):
                continue
            m = sys.modules[name]
            for a in sorted(vars(m)):
                f = vars(m)[a]
                if callable(f) and isinstance(
                        getattr(f, 'default_options', None), dict):
                    found.setdefault(id(f), ('%s.%s' % (
                        f.__module__, f.__name__), f))
        _owners = [found[i] for i in found]
        _owners.sort(key=lambda x: x[0])
    return _owners


def snapshot():
    """Settings that a user of the process can observe."""
    import cvxopt
    import cvxopt.solvers
    import matplotlib
    st = np.random.get_state()
    s = {"geterr": dict(np.geterr()),
         "errcall": repr(np.geterrcall()),
         "printoptions": {k: repr(v) for k, v in
                          np.get_printoptions().items()},
         "np.random": hashlib.blake2b(
             st[1].tobytes()+repr(st[2:]).encode()).hexdigest(),
         "random": hashlib.blake2b(
             repr(random.getstate()).encode()).hexdigest(),
         "warnings.filters": [repr(x) for x in warnings.filters],
         "warnings.showwarning": repr(getattr(
             warnings.showwarning, '__name__', '')),
         "cvxopt.solvers.options": copy.deepcopy(
             dict(cvxopt.solvers.options)),
         "cvxopt.printing": {k: repr(v) for k, v in
                             cvxopt.printing.options.items()},
         "cvxopt.spmatrix_str": '%s.%s' % (
             cvxopt.spmatrix_str.__module__, cvxopt.spmatrix_str.__name__),
         "cvxopt.matrix_str": '%s.%s' % (
             cvxopt.matrix_str.__module__, cvxopt.matrix_str.__name__),
         "environ": dict(os.environ), "cwd": os.getcwd(),
         "interpreter": interpreter(),
         "rcParams": hashlib.blake2b(repr(sorted(
             (k, repr(v)) for k, v in matplotlib.rcParams.items()
         )).encode()).hexdigest()}
    for name, f in option_owners():
        s["default_options of "+name] = copy.deepcopy(f.default_options)
    return s


def interpreter():
    """Settings of the interpreter and of the standard library."""
    return {"recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(),
            "gc": repr((gc.isenabled(), gc.get_threshold(),
                        gc.get_debug())),
            "streams": repr([(nth(getattr(sys, n)), n) for n in (
                'stdin', 'stdout', 'stderr', 'displayhook', 'excepthook',
                'unraisablehook')]),
            "signals": repr([(s, name_of(signal.getsignal(s)))
                             for s in (signal.SIGINT, signal.SIGTERM,
                                       signal.SIGALRM, signal.SIGFPE)]),
            "path": list(sys.path), "decimal": repr(decimal.getcontext()),
            "locale": repr(locale.setlocale(locale.LC_ALL)),
            "logging": repr((logging.root.level, logging.root.manager.disable,
                             logging.root.disabled,
                             len(logging.root.handlers))),
            "buffer size": np.getbufsize()}


_objects = []


def nth(x):
    """A number for an object, as its address is not reproducible."""
    for i, o in enumerate(_objects):
        if o is x:
            return i
    _objects.append(x)
    return len(_objects)-1


def name_of(x):
    return getattr(x, '__qualname__', repr(x))


def diff(before, after, skip=()):
    out = []
    for k in before:
        if k in skip:
            continue
        r = ops.exactly(before[k], after[k])
        if r:
            out.append('%s: %s' % (k, r))
    return out
