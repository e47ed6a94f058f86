"""C09: results depend on the arguments only, arguments are never modified."""

import random
import warnings

import numpy as np

from .. import history as H
from .. import kernel, ops
from .. import shrink as S
from ..run import Run, brief, chain, diff, matches, outcome, snapshot

ID = 'C09'
TIERS = {'quick': (8000, 120.), 'thorough': (10**7, 780.)}
RULE = ('A run is a history of 2-8 calls (variants of the same call, '
        'repetitions, calls that fail by themselves or by injected solver, '
        'callback and line faults) interleaved with changes of the ambient '
        'settings (NumPy error handling, print options, random generators, '
        'warning filters, CVXOPT options, matplotlib parameters) made by '
        'the user of the process, and with the reuse of argument objects '
        'with new contents, read-only or laid out differently; each call is '
        'compared with the same call made alone in a pristine process. '
        'Runs with two calls or more, or ambient changes, are non-trivial.')
STATES = ('(operation, ambient settings in force, previous operation, kind '
          'of arguments) of each call made')
ASSUME = ['floating point conditions and warnings turned into errors by the '
          'user may come out as such errors']


class CallbackError(Exception):
    pass


SETERR = ['ignore', 'warn', 'raise', 'call', 'print', 'log']


def gen_ambient(r):
    k = r.choice(['seterr', 'seterr', 'print', 'seed', 'filters', 'cvxopt',
                  'cvxopt', 'rc', 'errcall'])
    s = {"k": "ambient", "what": k}
    if k == 'seterr':
        s["v"] = {c: r.choice(SETERR) for c in
                  ('divide', 'over', 'under', 'invalid')}
        if r.random() < .5:
            m = r.choice(SETERR)
            s["v"] = {c: m for c in s["v"]}
    elif k == 'print':
        s["v"] = r.choice([{"precision": 2}, {"suppress": True},
                           {"threshold": 3, "edgeitems": 1},
                           {"nanstr": "x", "infstr": "y"},
                           {"linewidth": 20, "precision": 1},
                           {"legacy": "1.13"}, {"sign": "+"},
                           {"floatmode": "fixed", "precision": 4}])
    elif k == 'seed':
        s["v"] = r.randint(0, 10**6)
    elif k == 'filters':
        s["v"] = r.choice(['ignore', 'error', 'once', 'default', 'always'])
        s["c"] = r.choice(['Warning', 'UserWarning', 'RuntimeWarning',
                           'DeprecationWarning'])
    elif k == 'cvxopt':
        o = {"maxiters": r.choice([1, 3, 7]), "abstol": 1e-1,
             "reltol": 1e-1, "feastol": 1e-1, "show_progress":
             r.random() < .5}
        n = r.randint(1, 5)
        s["v"] = {x: o[x] for x in r.sample(sorted(o), n)}
    elif k == 'rc':
        s["v"] = r.choice([{"lines.linewidth": 4.}, {"font.size": 4.},
                           {"axes.grid": True}])
    return s


def gen_call(r, prev, cls, tier):
    x = r.random()
    if prev and x < .45:
        op = r.choice(prev)
        if 'cheap' in ops.TAGS[op["f"]]:
            if x > .3:
                op = H.safe_variant(r, op)
            elif x > .2:
                op = H.near(r, op)
    elif x < .53:
        op = H.pick(r, 'bad', 's0', tier)
    elif x < .58:
        op = H.pick(r, 'plot', 's0', tier)
    elif x < .75:
        op = H.pick(r, r.choice(['cheap', 'callback']), 's0', tier)
    else:
        op = H.pick(r, cls, 's0', tier)
    c = {"k": "call", "op": op, "fault": None,
         "args": r.choice([None, None, 'recycle', 'recycle', 'readonly',
                           'layout'])}
    if r.random() < .2:
        c["fault"] = gen_fault(r, op)
    return c


def gen_fault(r, op):
    tags = ops.TAGS[op["f"]]
    kinds = ['line']
    if 'callback' in tags:
        kinds += ['callback']*2
    if 'solver' in tags:
        kinds += ['solver']*2
    k = r.choice(kinds)
    f = {"kind": k}
    if k == 'line':
        f.update(exc=r.choice(['interrupt', 'memory']),
                 site=round(r.random(), 5), occ=round(r.random(), 4),
                 tree=r.random() < .6)
    elif k == 'callback':
        f["n"] = r.choice([0, 0, 1, 5, 21])
    else:
        f["mode"] = r.choice(['crash', 'rank', 'truncate', 'unknown',
                              'primal_infeasible', 'dual_infeasible'])
    return f


def plan(r, index, tier):
    cls = r.choices(['cheap', 'callback', 'medium', 'solver', 'tdr'],
                    [34, 26, 8, 24, 8])[0]
    n = r.choice([2, 3, 4, 6, 8]) if cls in ('cheap', 'callback') \
        else r.choice([2, 3, 4])
    steps, prev = [], []
    if r.random() < .2:
        # several calls of one function, all nearly the same
        names = [f for f in H.CHEAP if 'slow' not in ops.TAGS[f]]
        f = names[index % len(names)]
        for _ in range(r.choice([2, 3, 4])):
            op = {"f": f, "a": ops.GEN[f](r)}
            for o in (op, H.near(r, op), H.near(r, op)):
                steps.append({"k": "call", "op": o, "fault": None,
                              "args": r.choice([None, 'recycle'])})
        return {"steps": steps}
    for _ in range(n):
        if r.random() < .35:
            steps.append(gen_ambient(r))
        c = gen_call(r, prev, cls, tier)
        prev.append(c["op"])
        steps.append(c)
    return {"steps": steps}


def ops_of(plan):
    return [s["op"] for s in plan["steps"] if s["k"] == 'call']


# ---- execution ------------------------------------------------------------

class Recycler(object):
    """Gives argument objects used before, holding the new contents."""

    def __init__(self, run):
        self.run = run
        self.pool = []
        self.used = []

    def __call__(self, x):
        if isinstance(x, tuple):
            return tuple(self(i) for i in x)
        for o in self.pool:
            if any(o is u for u in self.used) or type(o) is not type(x):
                continue
            if isinstance(x, np.ndarray):
                if o.shape != x.shape or o.dtype != x.dtype:
                    continue
                o[...] = x
            elif isinstance(x, dict):
                o.clear()
                o.update(x)
            elif isinstance(x, list):
                o[:] = x
            else:
                return x
            self.used.append(o)
            self.run.k.probe('argument_object_reused')
            return o
        if isinstance(x, (np.ndarray, dict, list)):
            self.pool.append(x)
            self.used.append(x)
        return x


def readonly(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, (tuple, list)):
        for i in x:
            readonly(i)
    return x


def layout(x):
    """Same contents, another memory layout."""
    if isinstance(x, np.ndarray) and x.ndim >= 1:
        big = np.full([2*n+1 for n in x.shape], 7, dtype=x.dtype)
        v = big[tuple(slice(1, 1+2*n, 2) for n in x.shape)]
        v[...] = x
        return v
    if isinstance(x, tuple):
        return tuple(layout(i) for i in x)
    return x


def set_ambient(run, s, amb):
    k, v = s["what"], s.get("v")
    run.k.fault('ambient_'+k)
    run.k.emit('ambient', k, v)
    if k == 'seterr':
        amb["fp"] = any(v[c] == 'raise' for c in v)
        np.seterr(**v)
    elif k == 'errcall':
        class Log(object):
            def write(self, msg):
                pass
            __call__ = lambda self, *a: None
        np.seterrcall(Log())
    elif k == 'print':
        np.set_printoptions(**v)
    elif k == 'seed':
        np.random.seed(v)
        random.seed(v)
    elif k == 'filters':
        import builtins
        warnings.filterwarnings(v, category=getattr(builtins, s["c"]))
        amb["werror"] = amb["werror"] or v == 'error'
    elif k == 'cvxopt':
        import cvxopt.solvers
        cvxopt.solvers.options.update(v)
    elif k == 'rc':
        import matplotlib
        matplotlib.rcParams.update(v)
    amb["set"].add(k)


def execute(plan, refs):
    run = Run(plan, refs)

    class Log(object):
        def write(self, msg):
            pass

        def __call__(self, *a):
            pass
    np.seterrcall(Log())
    kernel.solo(run.k, lambda t: body(run, plan))
    run.info["nontrivial"] = len([s for s in plan["steps"]
                                  if s["k"] == 'call']) > 1
    return run.result()


def body(run, plan):
    amb = {"fp": False, "werror": False, "set": set()}
    recycler = Recycler(run)
    last = None
    for i, s in enumerate(plan["steps"]):
        if s["k"] == 'ambient':
            set_ambient(run, s, amb)
            continue
        if not call(run, i, s, amb, recycler, last):
            return
        last = s["op"]["f"]


def call(run, i, s, amb, recycler, last):
    k = run.k
    op, f = s["op"], s["fault"]
    ref = run.ref(op)
    specs = []
    if f and f["kind"] == 'line':
        specs = [{"do": "raise", "exc": f["exc"], "site": f["site"],
                  "occ": f["occ"], "tree": f["tree"]}]
    ctx = H.context(run, op, ref, specs)
    if f and f["kind"] == 'solver':
        ctx.solver_plan = [{"mode": f["mode"]}]

    def callback(g, a, kw):
        n = ctx.cb
        ctx.cb += 1
        if f and f["kind"] == 'callback' and n == f["n"]:
            k.fault('callback_error')
            e = CallbackError('injected')
            ctx.injected.append(e)
            raise e
        return g(*a, **kw)

    form = {None: None, 'recycle': recycler, 'readonly': readonly,
            'layout': layout}[s["args"]]
    recycler.used = []
    env = ops.Env(callback=callback if 'callback' in ops.TAGS[op["f"]]
                  else None, form=form)
    before = snapshot()
    res = run.issue(op, env, ctx)
    for x in diff(before, snapshot()):
        run.violate('settings_changed', op=op, step=i, what=x)
    why = env.modified()
    if why:
        run.violate('argument_modified', op=op, step=i, what=why,
                    args=s["args"])
    if run.viol:
        return False
    run.state(op["f"], sorted(amb["set"]), last, s["args"],
              f and f["kind"])
    if not H.check_functions(run, step=i):
        return False
    if ctx.faults:
        return True                       # its outcome is for C05, C07, C08
    why = matches(res, ref, op["f"])
    if why is None:
        return compare_options(run, i, op, ctx, ref)
    if res[0] == 'exc':
        es = chain(res[1])
        if amb["fp"] and any(isinstance(e, (FloatingPointError,
                                            np.linalg.LinAlgError))
                             for e in es):
            k.probe('fp_condition_raised')
            return True
        if amb["werror"] and any(isinstance(e, Warning) for e in es):
            k.probe('warning_raised')
            return True
        if s["args"] == 'readonly' and 'buffer source array is read-only' \
                in str(res[1]):
            return True
    run.violate('result_depends_on_history', op=op, step=i, difference=why,
                ambient=sorted(amb["set"]), args=s["args"])
    return False


def compare_options(run, i, op, ctx, ref):
    return H.compare_seams(run, op, ctx, ref, 'options_depend_on_history',
                           step=i)


def shrink(plan):
    for g in (lambda: S.lists(plan, ('steps',), 1),
              lambda: S.nulls(plan, ('fault', 'args')),
              lambda: S.ints(plan, ('n',), 0)):
        for p in g():
            yield p
