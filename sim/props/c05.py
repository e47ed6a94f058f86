"""C05: an interrupted or failed call leaves no trace."""

import errno
import os
import sys
import warnings

import numpy as np

from .. import history as H
from .. import kernel, ops
from .. import shrink as S
from ..run import Run, brief, chain, diff, matches, outcome, snapshot

ID = 'C05'
TIERS = {'quick': (12000, 120.), 'thorough': (10**7, 780.)}
RULE = ('A run sets up random user settings, issues 1-3 calls in which '
        'faults strike (interrupts and failed allocations at seeded lines, '
        'failing solvers, failing callbacks and argument conversions, '
        'warnings and floating point conditions turned into errors), then '
        'retries them and issues other calls; settings, defaults, arguments '
        'and results are compared with those of a fault free process.')
STATES = '(operation, kind of fault, line of the package at which it struck)'
ASSUME = ['no fault strikes in cleanup code (exception handlers, finally '
          'blocks, context managers) nor inside third party routines, but '
          'where they call back into the package']


class CallbackError(Exception):
    pass


class CallbackAbort(BaseException):
    pass


CB = {'error': CallbackError, 'abort': CallbackAbort,
      'interrupt': kernel.SimInterrupt,
      'zero': ZeroDivisionError, 'value': ValueError}


# what may happen while the progress is shown
OUTPUT = {'full': lambda: OSError(errno.ENOSPC, 'injected: disk full'),
          'pipe': lambda: BrokenPipeError(errno.EPIPE, 'injected'),
          'interrupt': lambda: kernel.SimInterrupt('injected in output'),
          'memory': lambda: MemoryError('injected in output')}


def gen_fault(r, op, tags):
    kinds = ['line']*6+['werror', 'fperror', 'array']
    if 'callback' in tags:
        kinds += ['callback']*3
    if 'solver' in tags:
        kinds += ['solver']*3
    if op["a"].get("sp"):
        kinds += ['output']*8
    k = r.choice(kinds)
    f = {"kind": k}
    if k == 'line':
        f["exc"] = r.choice(['interrupt', 'memory'])
        f["site"] = round(r.random(), 5)
        f["occ"] = round(r.choice([0., 0.999, r.random()]), 4)
        f["tree"] = r.random() < .6
    elif k == 'callback':
        f["n"] = r.choice([0, 0, 1, 2, 7, 20, 21, 50, 100])
        f["exc"] = r.choice(sorted(CB))
    elif k == 'solver':
        f["n"] = r.choice([0, 0, 0, 1])
        f["mode"] = r.choice(['crash', 'memory', 'rank', 'interrupt'])
    elif k == 'array':
        f["exc"] = r.choice(sorted(CB))
    elif k == 'output':
        f["n"] = r.choice([0, 0, 1, 2, 3, 5, 9, 20, 40])
        f["exc"] = r.choice(sorted(OUTPUT))
    return f


class Stream(object):
    """A standard output that fails at the nth thing written to it."""

    def __init__(self, n, fail):
        self.n = n
        self.fail = fail
        self.encoding = 'utf-8'
        self.errors = 'strict'

    def write(self, s):
        self.n -= 1
        if self.n == -1:
            self.fail()
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('not a file')


def volley(r, n):
    """Faults spread evenly over the lines of a call, in random order."""
    u, tree = r.random(), r.random() < .3
    out = [{"kind": 'line', "exc": r.choice(['interrupt', 'memory']),
            "site": round((j+u)/n, 5), "tree": tree,
            "occ": round(r.choice([0., 0., .999, r.random()]), 4)}
           for j in range(n)]
    r.shuffle(out)
    return out


def plan(r, index, tier):
    cls = r.choices(['cheap', 'callback', 'medium', 'solver', 'tdr', 'plot'],
                    [33, 25, 8, 23, 8, 3])[0]
    tag = 's0'
    vict = []
    for _ in range(r.choice([1, 1, 2, 3]) if cls in ('cheap', 'callback')
                   else 1):
        op = H.pick(r, cls, tag, tier)
        vict.append({"op": op, "faults": [
            gen_fault(r, op, ops.TAGS[op["f"]])
            for _ in range(r.choice([1, 1, 2, 3]))]})
    if cls in ('cheap', 'callback') and r.random() < .5:
        names = H.CHEAP if cls == 'cheap' else H.CALLBACK
        f = names[index % len(names)]
        vict = [{"op": {"f": f, "a": ops.GEN[f](r)},
                 "faults": volley(r, 24)}]
    elif cls in ('solver', 'tdr', 'medium', 'plot') and r.random() < .5:
        vict[0]["faults"] += volley(r, 6)
    after = [H.pick(r, r.choice(['cheap', 'callback']), tag, tier)
             for _ in range(r.choice([0, 1, 2]))]
    if r.random() < .5 and cls in ('cheap', 'callback'):
        # other calls of the same functions
        v = r.choice(vict)["op"]["f"]
        after.append({"f": v, "a": ops.GEN[v](r)})
    return {"before": [H.pick(r, 'cheap', tag, tier)
                       for _ in range(r.choice([0, 0, 1]))],
            "user": {"seterr": r.choice([None, 'ignore', 'warn']),
                     "cvxopt": r.random() < .4,
                     "print": r.random() < .3,
                     "defaults": r.random() < .3,
                     "filters": r.random() < .3},
            "victims": vict, "after": after, "retry": r.random() < .9}


def ops_of(plan):
    return plan["before"]+[v["op"] for v in plan["victims"]]+plan["after"]


def user_settings(plan):
    u = plan["user"]
    if u["seterr"]:
        np.seterr(all=u["seterr"])
    if u["cvxopt"]:
        import cvxopt.solvers
        cvxopt.solvers.options.update(show_progress=False, maxiters=7,
                                      abstol=1e-2, reltol=1e-2, feastol=1e-2)
    if u["print"]:
        np.set_printoptions(precision=3, threshold=5)
    if u["defaults"]:
        from pydsm.NTFdesign import ntf_fir_weighting, ntf_fir_minmax
        from pydsm.ft import idtft
        ntf_fir_weighting.default_options['show_progress'] = False
        if "'scs'" not in repr(ops_of(plan)):
            ntf_fir_minmax.default_options['scs_opts']['alpha'] = 1.7
        idtft.default_options['mark'] = [1, {'x': 2}]
    if u["filters"]:
        warnings.filterwarnings('ignore', 'this never matches')


def execute(plan, refs):
    run = Run(plan, refs)
    kernel.solo(run.k, lambda t: body(run, plan))
    run.info["nontrivial"] = 0
    return run.result()


def body(run, plan):
    user_settings(plan)
    base = snapshot()

    def settings(op, when, fault=None):
        d = diff(base, snapshot())
        for x in d:
            run.violate('settings_changed', op=op, when=when, fault=fault,
                        what=x)
        return not d

    def plain(op, kind, cb=None):
        ref = run.ref(op)
        ctx = H.context(run, op, ref, [])
        env = ops.Env()
        if 'callback' in ops.TAGS[op["f"]]:
            env = ops.Env(callback=lambda f, a, k: f(*a, **k))
        res = run.issue(op, env, ctx)
        ok = H.compare(run, op, res, ref, kind)
        if ok:
            ok = H.compare_seams(run, op, ctx, ref, kind+'_options')
        return ok and settings(op, kind)

    for op in plan["before"]:
        if not plain(op, 'early_call_differs'):
            return
    for v in plan["victims"]:
        for f in v["faults"]:
            if not victim(run, v["op"], f, settings):
                return
        if plan["retry"]:
            if not plain(v["op"], 'retry_differs'):
                return
    for op in plan["after"]:
        if not plain(op, 'later_call_differs'):
            return
    if plan["victims"] and not plan["retry"]:
        plain(plan["victims"][0]["op"], 'retry_differs')


def victim(run, op, f, settings):
    k = run.k
    ref = run.ref(op)
    kind = f["kind"]
    specs = []
    if kind == 'line':
        specs = [{"do": "raise", "exc": f["exc"], "site": f["site"],
                  "occ": f["occ"], "tree": f["tree"]}]
    ctx = H.context(run, op, ref, specs)
    if kind == 'solver':
        ctx.solver_plan = [None]*f["n"]+[{"mode": f["mode"]}]

    def callback(g, a, kw):
        n = ctx.cb
        ctx.cb += 1
        if kind == 'callback' and n == f["n"]:
            k.fault('callback_'+f["exc"])
            e = CB[f["exc"]]('injected in callback')
            ctx.injected.append(e)
            raise e
        return g(*a, **kw)

    def convert():
        k.fault('argument_conversion')
        e = CB[f["exc"]]('injected in conversion')
        ctx.injected.append(e)
        raise e

    env = ops.Env(
        callback=callback if 'callback' in ops.TAGS[op["f"]] else None,
        arraylike=(lambda x: H.ArrayLike(x, convert))
        if kind == 'array' else None)

    def unwritable():
        k.fault('output_'+f["exc"])
        k.emit('output', f["exc"])
        e = OUTPUT[f["exc"]]()
        ctx.injected.append(e)
        raise e

    ambient = None
    old = None
    if kind == 'werror':
        old = list(warnings.filters)
        warnings.simplefilter('error')
        k.fault('warnings_as_errors')
    elif kind == 'fperror':
        ambient = np.seterr(all='raise')
        k.fault('fp_conditions_as_errors')
    stream = sys.stdout
    if kind == 'output':
        sys.stdout = Stream(f["n"], unwritable)
    during = snapshot()
    res = run.issue(op, env, ctx)
    d = diff(during, snapshot())
    sys.stdout = stream
    if kind == 'werror':
        warnings.filters[:] = old
        warnings._filters_mutated()
    elif kind == 'fperror':
        np.seterr(**ambient)
    for x in d:
        run.violate('settings_changed', op=op, when='after the fault',
                    fault=f, what=x)
    if d:
        return False
    why = env.modified()
    if why and not ref["mod"]:
        run.violate('argument_modified', op=op, fault=f, what=why)
        return False
    if not H.check_functions(run, fault=f):
        return False
    fired = bool(ctx.faults) or kind in ('werror', 'fperror') or (
        kind == 'output' and bool(ctx.injected))
    where = [l for l in k.log if ' raise ' in l][-1:] \
        if kind == 'line' and fired else ''
    if fired:
        run.state(op["f"], kind, f.get("exc"), where)
    # what came out
    same = matches(res, ref, op["f"])
    if same is None:
        if fired and kind == 'line':
            k.probe('fault_absorbed')
        return True
    if res[0] == 'ok':
        run.violate('wrong_result_after_fault', op=op, fault=f,
                    difference=same)
        return False
    es = chain(res[1])
    if any(e is i for e in es for i in ctx.injected):
        if kind in ('line', 'callback', 'array') and \
                not any(res[1] is i for i in ctx.injected) and \
                not (kind == 'array' and f["exc"] == 'value' and
                     isinstance(res[1], (ValueError, TypeError))) and \
                not raised_by_cvxopt(res[1]):
            run.violate('failure_replaced', op=op, fault=f,
                        got=brief(outcome(res)))
            return False
        return True
    if kind == 'solver' and fired:
        return True                          # reported in another way
    if kind == 'werror' and any(isinstance(e, Warning) for e in es):
        return True
    if kind == 'fperror' and any(isinstance(e, (FloatingPointError,
                                                np.linalg.LinAlgError))
                                 for e in es):
        return True
    if kind in ('line', 'callback', 'array') and ctx.injected:
        run.violate('failure_replaced', op=op, fault=f,
                    got=brief(outcome(res)))
        return False
    run.violate('unexpected_exception', op=op, fault=f,
                got=brief(outcome(res)))
    return False


def raised_by_cvxopt(e):
    """CVXOPT answers anything raised by the function that describes a
    nonlinear program with an exception of its own; the package is not there
    to be asked."""
    import cvxopt
    tb = e.__traceback__
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.dirname(os.path.abspath(tb.tb_frame.f_code.co_filename)) \
        == os.path.dirname(os.path.abspath(cvxopt.__file__))


def shrink(plan):
    for g in (lambda: S.lists(plan, ('before', 'after')),
              lambda: S.lists(plan, ('victims',), 1),
              lambda: S.lists(plan, ('faults',), 1),
              lambda: S.nulls(plan, ('seterr',)),
              lambda: S.falses(plan, ('cvxopt', 'print', 'defaults',
                                      'filters')),
              lambda: S.ints(plan, ('n',), 0),
              lambda: S.values(plan, 'occ', 0.)):
        for p in g():
            yield p
