"""C10: returned data belong to the caller."""

import numpy as np

from .. import history as H
from .. import kernel, ops
from .. import shrink as S
from ..run import Run, diff, snapshot

ID = 'C10'
TIERS = {'quick': (8000, 110.), 'thorough': (10**7, 780.)}
RULE = ('A run is a history of 3-10 calls; the caller keeps what they '
        'return and overwrites, sorts, empties or extends it: right after '
        'the call, between later calls, or while other calls are running '
        '(at seeded lines of them, as another thread would do). Some calls '
        'are interrupted. Each call is compared with the same call made '
        'alone in a pristine process, and what was returned and not touched '
        'by the caller with what it was. Runs in which something was '
        'overwritten are non-trivial.')
STATES = ('(operation whose result was overwritten, in which way, operation '
          'running or made next)')
ASSUME = ['functions documented to reinterpret an argument (partitionABCD, '
          'shiftdim) may return views of that argument']

HOW = ['nan', 'zero', 'add', 'reverse', 'sort', 'swap']
# functions that hold, or may well hold, precomputed data
TABLES = ['iso226', 'iso226_tables', 'ds_tools', 'dunn_optzeros', 'ntf_dunn',
          'synthesizeNTF', 'audio_weightings', 'simulateDSM', 'dsclansNTF',
          'chebyshev', 'aliases', 'maxflat', 'ft', 'cplxpair', 'padding',
          'chop', 'legacy', 'impulse_response']


def gen_call(r, prev, cls, tier):
    x = r.random()
    if prev and x < .5:
        op = r.choice(prev)
        if x > .25 and 'cheap' in ops.TAGS[op["f"]]:
            op = {"f": op["f"], "a": ops.GEN[op["f"]](r)}
    elif x < .7:
        op = ops.gen(r, TABLES)
    elif x < .73:
        op = H.pick(r, 'bad', 's0', tier)
    elif x < .75:
        op = H.pick(r, 'plot', 's0', tier)
    else:
        op = H.pick(r, cls, 's0', tier)
    c = {"op": op, "scribble": None, "later": [], "during": [],
         "fault": None, "own": r.choice([None]+HOW)}
    if r.random() < .6:
        c["scribble"] = {"how": r.choice(HOW), "at": r.choice(
            ['now', 'now', 'partial'])}
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        c["later"].append({"which": r.randint(0, 9), "how": r.choice(HOW)})
    if prev:
        for _ in range(r.choice([0, 0, 1, 2])):
            c["during"].append({"which": r.randint(0, 9),
                                "how": r.choice(HOW),
                                "site": round(r.random(), 5),
                                "occ": round(r.random(), 4),
                                "tree": r.random() < .5})
    if r.random() < .1:
        c["fault"] = {"exc": r.choice(['interrupt', 'memory']),
                      "site": round(r.random(), 5),
                      "occ": round(r.random(), 4), "tree": r.random() < .6}
    return c


def plan(r, index, tier):
    cls = r.choices(['cheap', 'callback', 'medium', 'solver', 'tdr'],
                    [50, 14, 8, 20, 8])[0]
    n = r.choice([3, 4, 6, 10]) if cls in ('cheap', 'callback') \
        else r.choice([2, 3, 4])
    steps, prev = [], []
    for _ in range(n):
        c = gen_call(r, prev, cls, tier)
        prev.append(c["op"])
        steps.append(c)
    return {"steps": steps}


def ops_of(plan):
    return [s["op"] for s in plan["steps"]]


# ---- overwriting -----------------------------------------------------------

def leaves(x, out=None):
    """The mutable objects reachable from a result."""
    out = [] if out is None else out
    if isinstance(x, tuple):
        for i in x:
            leaves(i, out)
    elif isinstance(x, list):
        out.append(x)
        for i in x:
            leaves(i, out)
    elif isinstance(x, dict):
        out.append(x)
        for i in x.values():
            leaves(i, out)
    elif isinstance(x, np.ndarray):
        out.append(x)
    elif type(x).__name__ == 'matrix' and hasattr(x, 'typecode'):
        out.append(x)                    # a CVXOPT matrix
    return out


def scribble(x, how):
    """Overwrite one mutable object; False if that is not possible."""
    if isinstance(x, np.ndarray):
        if not x.flags.writeable or x.size == 0 or x.dtype.kind not in 'fciub':
            return False
        if how == 'nan' and x.dtype.kind in 'fc':
            x[...] = np.nan
        elif how == 'zero':
            x[...] = 0
        elif how == 'reverse':
            x[...] = x[..., ::-1].copy() if x.ndim else 3
        elif how == 'sort':
            x[...] = np.sort(x, axis=None)[::-1].reshape(x.shape)
        elif how == 'swap':
            x.ravel()[:1] = 0
            x[...] = -x if x.dtype.kind != 'b' else ~x
        else:
            with np.errstate(all='ignore'):
                x[...] = x+1 if x.dtype.kind != 'b' else True
    elif isinstance(x, list):
        if how in ('nan', 'add'):
            x.append('junk')
        elif how in ('zero', 'swap'):
            del x[:]
        else:
            x.reverse()
    elif isinstance(x, dict):
        if how in ('nan', 'add'):
            x['junk'] = how
        else:
            x.clear()
    else:
        x *= 0.
        x += 7.
    return True


class Kept(object):

    def __init__(self, op, raws, given=()):
        self.op = op
        # the arguments of the call: not what is returned, unless documented
        self.given = () if 'view' in ops.TAGS[op["f"]] else given
        self.objs = []
        self.twice = False
        for x in raws:
            old = list(self.objs)
            for o in leaves(x):
                if not any(o is p for p in self.objs):
                    self.objs.append(o)
                # (two calls made by the operation)
                elif any(o is p for p in old) and not (isinstance(
                        o, np.ndarray) and not o.flags.writeable):
                    self.twice = True
        self.refresh()

    def refresh(self):
        self.copies = [copy_of(o) for o in self.objs]

    def changed(self):
        for o, c in zip(self.objs, self.copies):
            if isinstance(o, (list, dict)):
                d = None if _eq(o, c) else 'contents'
            else:
                d = ops.exactly(np.asarray(o), np.asarray(c))
            if d:
                return d


    def argument(self):
        for x, y in self.given:
            d = ops.exactly(x, y)
            if d:
                return d


def copy_of(o):
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, list):
        return list(o)
    if isinstance(o, dict):
        return dict(o)
    return +o


def _eq(a, b):
    if len(a) != len(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(a[k] is b[k] for k in a)
    return all(x is y for x, y in zip(a, b))


# ---- execution -------------------------------------------------------------

def execute(plan, refs):
    run = Run(plan, refs)
    kernel.solo(run.k, lambda t: body(run, plan))
    run.info["nontrivial"] = run.info.get("overwritten", 0)
    return run.result()


def body(run, plan):
    kept = []
    base = snapshot()
    for i, s in enumerate(plan["steps"]):
        if not step(run, i, s, kept):
            return
        for x in diff(base, snapshot()):
            if x.startswith('default_options'):
                run.violate('defaults_changed', step=i, op=s["op"], what=x)
        if run.viol:
            return


def overwrite(run, kept, j, how, where, only=None):
    """The caller overwrites the result number j; the others must not move."""
    if not kept:
        return True
    e = kept[j % len(kept)]
    objs = e.objs if only is None else e.objs[only:only+1]
    if not any([scribble(o, how) for o in objs]):
        return True
    run.k.fault('overwrite_'+how)
    run.k.emit('overwrite', e.op["f"], how, where)
    run.info["overwritten"] = run.info.get("overwritten", 0)+1
    run.state(e.op["f"], how, where)
    shared = 'view' in ops.TAGS[e.op["f"]]
    if only is not None and not shared:
        for n, (o, c) in enumerate(zip(e.objs, e.copies)):
            if n == only or isinstance(o, (list, dict)):
                continue
            if isinstance(e.objs[only], (list, dict)):
                continue
            if ops.exactly(np.asarray(o), np.asarray(c)):
                run.violate('results_share_memory', op=e.op, parts=(only, n),
                            where=where)
                return False
    e.refresh()
    d = e.argument()
    if d:
        run.violate('argument_is_result', op=e.op, difference=d, where=where)
        return False
    return untouched(run, kept, where)


def untouched(run, kept, where):
    for e in kept:
        d = e.changed()
        if d:
            run.violate('returned_data_changed', op=e.op, difference=d,
                        where=where)
            return False
    return True


def step(run, i, s, kept):
    k = run.k
    op = s["op"]
    ref = run.ref(op)
    specs = [{"do": "hook", "site": d["site"], "occ": d["occ"],
              "tree": d["tree"], "which": d["which"], "how": d["how"]}
             for d in s["during"]]
    f = s["fault"]
    if f:
        specs.append(dict(f, do="raise"))
    ctx = H.context(run, op, ref, specs)

    def hook(trig, where):
        overwrite(run, kept, trig["which"], trig["how"], where)
    ctx.hook = hook
    raws = []

    def owner(x):
        # what was returned by a part of the operation
        if s["own"] and any([scribble(o, s["own"]) for o in leaves(x)]):
            k.fault('overwrite_'+s["own"])
            k.emit('overwrite', op["f"], s["own"], 'within')
            run.info["overwritten"] = run.info.get("overwritten", 0)+1
            run.state(op["f"], s["own"], 'within')
    ops.TAP.append(raws)
    try:
        env = ops.Env(
            owner=owner,
            callback=(lambda g, a, kw: g(*a, **kw))
            if 'callback' in ops.TAGS[op["f"]] else None)
        res = run.issue(op, env, ctx)
    finally:
        ops.TAP.remove(raws)
    if run.viol:
        return False
    if not any(x.startswith('line_') for x in ctx.faults):
        if not H.compare(run, op, res, ref, 'later_call_differs', step=i):
            return False
        if not H.compare_seams(run, op, ctx, ref, 'later_options_differ',
                               step=i):
            return False
    if not untouched(run, kept, 'call of '+op["f"]) or \
            not H.check_functions(run, step=i):
        return False
    if raws:
        kept.append(Kept(op, raws, env.given))
        if kept[-1].twice and 'view' not in ops.TAGS[op["f"]]:
            run.violate('same_object_returned_twice', op=op, step=i)
            return False
        sc = s["scribble"]
        if sc and kept[-1].objs:
            n = len(kept[-1].objs)
            if sc["at"] == 'partial':
                if not overwrite(run, kept, -1, sc["how"], 'part',
                                 (i*7+n) % n):
                    return False
            elif not overwrite(run, kept, -1, sc["how"], 'at once'):
                return False
    for x in s["later"]:
        if not overwrite(run, kept, x["which"], x["how"], 'between calls'):
            return False
    return True


def shrink(plan):
    for g in (lambda: S.lists(plan, ('steps',), 1),
              lambda: S.lists(plan, ('later', 'during')),
              lambda: S.nulls(plan, ('fault', 'scribble', 'own'))):
        for p in g():
            yield p
