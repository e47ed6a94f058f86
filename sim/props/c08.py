"""C08: user callbacks may fail or call back into the package."""

import copy
import math

import numpy as np

from .. import history as H
from .. import kernel, ops
from .. import shrink as S
from ..run import Run, brief, chain, diff, matches, outcome, snapshot

ID = 'C08'
TIERS = {'quick': (10000, 100.), 'thorough': (10**7, 780.)}
RULE = ('A run issues 1-3 calls taking user functions; at seeded '
        'evaluations the user function raises, or issues other calls '
        '(themselves with such user functions, down to three levels), '
        'catching or not their failures. Results at all levels, identity of '
        'the exceptions, arguments of the user functions and process '
        'settings are checked, then the calls are repeated.')
STATES = ('(outer operation, action in the callback, evaluation number '
          'class, inner operation or exception) of each action taken')
ASSUME = ['callbacks of optimizers do not raise StopIteration (SciPy '
          'takes it as a request to stop)']


class UserError(Exception):
    def __init__(self, *a):
        Exception.__init__(self)


class UserAbort(BaseException):
    pass


EXC = {'user': UserError, 'abort': UserAbort,
       'interrupt': kernel.SimInterrupt, 'memory': kernel.SimMemoryError,
       'exit': SystemExit, 'stop': StopIteration, 'genexit': GeneratorExit,
       'lookup': LookupError, 'timeout': TimeoutError, 'eof': EOFError,
       'zero': ZeroDivisionError, 'value': ValueError,
       'type': TypeError, 'key': KeyError, 'attr': AttributeError,
       'index': IndexError, 'fp': FloatingPointError,
       'overflow': OverflowError, 'runtime': RuntimeError,
       'os': OSError, 'import': ImportError, 'linalg': np.linalg.LinAlgError,
       'warning': UserWarning, 'recursion': RecursionError,
       'assert': AssertionError, 'notimpl': NotImplementedError}

CALLS = [n for n in ops.names('callback') if n != 'opt_call']
CHEAP = [n for n in CALLS if 'cheap' in ops.TAGS[n]]
EVALS = [0, 0, 1, 2, 3, 5, 7, 20, 21, 22, 41, 42, 60, 100, 200]


def has_callback(op):
    a = op["a"]
    if op["f"] in ('spread_zeros', 'ntf_fir_audio'):
        return True
    w = a.get("w")
    if isinstance(w, list):
        return any(x["k"] in ('cos', 'exp', 'ratio') for x in w)
    if a.get("none"):
        return False
    return w["k"] in ('cos', 'exp', 'ratio')


def gen_op(r, deep, tier):
    for _ in range(100):
        x = r.random()
        if deep or x < .8:
            op = ops.gen(r, CHEAP)
        elif x < .88:
            op = H.pick(r, 'medium', 's0', tier)
        else:
            op = H.pick(r, 'solver', 's0', tier)
        if op["f"] in CALLS and has_callback(op):
            return op
    return {"f": 'idtft', "a": {"w": {"k": 'exp', "a": 2.}, "n": 2,
                                "q": {}, "fs": 1}}


def gen_node(r, depth, tier):
    n = {"op": gen_op(r, depth, tier), "cb": {}}
    for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if depth else
                   r.choice([1, 1, 2, 3])):
        n["cb"][str(r.choice(EVALS))] = gen_action(r, n["op"], depth, tier)
    return n


def gen_action(r, outer, depth, tier):
    if depth >= 3 or r.random() < .4:
        e = r.choice(sorted(EXC))
        if e == 'stop' and 'optim' in ops.TAGS[outer["f"]]:
            e = 'user'
        return {"do": "raise", "exc": e}
    x = r.random()
    if x < .3 and ('cheap' in ops.TAGS[outer["f"]] or
                   outer["f"] == 'spread_zeros' and not depth):
        # the same function, recursively
        node = {"op": outer if r.random() < .3 else
                {"f": outer["f"], "a": ops.GEN[outer["f"]](r)}, "cb": {}}
        if outer["f"] == 'spread_zeros':
            node["op"]["a"]["n"] = outer["a"]["n"]
        if r.random() < .4 and has_callback(node["op"]):
            node["cb"][str(r.choice(EVALS))] = gen_action(
                r, node["op"], depth+1, tier)
    elif x < .6:
        node = gen_node(r, depth+1, tier)
    elif x < .9 or depth:
        node = {"op": H.pick(r, 'cheap', 's0', tier), "cb": {}}
    else:
        node = {"op": H.pick(r, r.choice(['medium', 'solver', 'tdr']), 's0',
                             tier), "cb": {}}
    return {"do": "nest", "node": node, "catch": r.random() < .6,
            "first": r.random() < .5}


def plan(r, index, tier):
    return {"calls": [gen_node(r, 0, tier)
                      for _ in range(r.choice([1, 1, 1, 2, 3]))],
            "retry": r.random() < .8}


def nodes(x):
    out = []
    if isinstance(x, dict):
        if "op" in x:
            out.append(x["op"])
        for v in x.values():
            out += nodes(v)
    elif isinstance(x, list):
        for v in x:
            out += nodes(v)
    return out


def ops_of(plan):
    return nodes(plan["calls"])


def execute(plan, refs):
    run = Run(plan, refs)
    kernel.solo(run.k, lambda t: body(run, plan))
    return run.result()


def body(run, plan):
    base = snapshot()
    for c in plan["calls"]:
        node(run, c, 0)
        if run.viol:
            return
        for d in diff(base, snapshot()):
            run.violate('settings_changed', op=c["op"], what=d)
            return
    if plan["retry"]:
        for c in plan["calls"]:
            node(run, {"op": c["op"], "cb": {}}, 0)
            if run.viol:
                return


def legal(op, a, kw):
    """None, or why the user function cannot be called in this way."""
    n = op["f"]
    if n == 'spread_zeros':
        ntf = a[0]
        if not (isinstance(ntf, tuple) and len(ntf) == 3):
            return 'NTF not in zpk form'
        z, p, k = (np.asarray(x) for x in ntf)
        if len(z) != op["a"]["n"] or len(p) != op["a"]["n"]:
            return 'NTF of wrong order'
        if np.max(np.abs(np.abs(z)-1)) > 1e-9:
            return 'zeros out of the unit circle'
        if np.max(np.abs(np.angle(z))) > np.pi/op["a"]["osr"]+1e-6:
            return 'zeros out of the band'
        if np.any(p != 0) or k != 1:
            return 'not a monic FIR'
        rest = (tuple(a[1:]), sorted(kw))
        if rest != ((tuple([2.]), ['off']) if op["a"]["kw"] else ((), [])):
            return 'additional arguments %r' % (rest,)
        return None
    if len(a) != 1 or kw:
        return 'arguments %r %r' % (a, kw)
    f = a[0]
    if np.ndim(f) != 0 or np.iscomplexobj(f) or not math.isfinite(f):
        return 'argument %r' % (f,)
    lo, hi = {'idtft': lambda: (-.5*op["a"]["fs"], .5*op["a"]["fs"]),
              'idtft_hermitian': lambda: (0., .5*op["a"]["fs"]),
              'noise_gain': lambda: op["a"]["b"],
              'ntf_fir_audio': lambda: (0., 22.05e3),
              }.get(n, lambda: (0., .5))()
    # (hertz are converted back and forth)
    eps = 1e-9*hi if n == 'ntf_fir_audio' else 0.
    if not lo-eps <= f <= hi+eps:
        return 'frequency %r out of [%g, %g]' % (f, lo, hi)
    return None


def node(run, nd, depth):
    """Issue a call; returns (result, exceptions raised in its callback)."""
    op = nd["op"]
    k = run.k
    ref = run.ref(op)
    ctx = H.context(run, op, ref, [])
    raised = []

    def callback(g, a, kw):
        n = ctx.cb
        ctx.cb += 1
        why = legal(op, a, kw)
        if why:
            run.violate('callback_argument', op=op, evaluation=n, why=why)
        act = nd["cb"].get(str(n))
        if act is None:
            return g(*a, **kw)
        cls = 'first' if n == 0 else 'early' if n < 21 else 'late'
        if act["do"] == 'raise':
            k.fault('callback_raises_'+act["exc"])
            run.state(op["f"], 'raise', cls, act["exc"], depth)
            e = EXC[act["exc"]]('from the user function')
            raised.append(e)
            raise e
        k.fault('callback_reenters')
        run.state(op["f"], 'nest', cls, act["node"]["op"]["f"], depth,
                  act["catch"])
        kept = copy.deepcopy((a, kw))
        v = None if act.get("first") else g(*a, **kw)
        res, inner = node(run, act["node"], depth+1)
        why = ops.exactly(kept, (a, kw))
        if why:
            run.violate('callback_argument_changed', op=op, evaluation=n,
                        what=why)
        if res[0] == 'exc' and not act["catch"]:
            raised.append(res[1])
            raise res[1]
        return g(*a, **kw) if act.get("first") else v

    env = ops.Env(callback=callback
                  if 'callback' in ops.TAGS[op["f"]] else None)
    res = run.issue(op, env, ctx)
    why = env.modified()
    if why and not ref["mod"]:
        run.violate('argument_modified', op=op, what=why)
    if run.viol:
        return res, raised
    if raised:
        if res[0] == 'ok':
            run.violate('failure_swallowed', op=op, depth=depth,
                        raised=repr(raised[-1]), got=brief(outcome(res)))
        elif res[1] is not raised[-1]:
            run.violate('failure_replaced', op=op, depth=depth,
                        raised=repr(raised[-1]), got=brief(outcome(res)))
        elif len(raised) > 1:
            run.violate('evaluated_after_failure', op=op, depth=depth)
        return res, raised
    d = matches(res, ref, op["f"])
    if d:
        run.violate('result_differs', op=op, depth=depth, difference=d)
    else:
        H.compare_seams(run, op, ctx, ref, 'options_differ', depth=depth)
    return res, raised


def shrink(plan):
    for g in (lambda: S.lists(plan, ('calls',), 1),
              lambda: S.falses(plan, ('retry', 'catch', 'first')),
              lambda: drop_cb(plan), lambda: lift(plan)):
        for p in g():
            yield p


def drop_cb(plan):
    for path, v in S.walk(plan):
        if path and path[-1] == 'cb' and isinstance(v, dict):
            for k in v:
                w = dict(v)
                del w[k]
                yield S._with(plan, path, w)


def lift(plan):
    """Try the inner calls alone."""
    for path, v in S.walk(plan):
        if path and path[-1] == 'node':
            yield S._with(plan, ('calls',), [v])
