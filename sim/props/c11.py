"""C11: re-solving a parametrised convex program equals solving a fresh one."""

import numpy as np

from .. import history as H
from .. import kernel, ops
from .. import shrink as S
from .. import tdrmodel as T
from ..run import Run, brief, chain, matches, outcome, triggers

ID = 'C11'
TIERS = {'quick': (9000, 110.), 'thorough': (10**7, 780.)}
RULE = ('A run builds 1-4 programs over shared variables and parameters and '
        'issues 4-14 steps: changes of parameter values (legal or not), '
        'options, counters, new programs, values overwritten by the caller, '
        'and solutions, some of which fail (solver crashes, early stops, '
        'wrong infeasibility certificates, failed allocations, interrupts '
        'at seeded lines) or have other programs solved while they run. '
        'Each undisturbed solution is compared with that of a program built '
        'anew, with numbers in place of parameters, in a pristine process, '
        'under another order of sets. Runs with two solutions or more are '
        'non-trivial.')
STATES = ('(family, what happened since its previous solution, outcome) of '
          'each solution')
ASSUME = ['the value of variables matters only where an optimum exists and '
          'is unique',
          'no interrupt strikes in cleanup code']

ATTRIBUTES = ['pos', 'neg', 'w']


def gen_solve(r, n, nested=True):
    s = {"k": "solve", "prog": r.randrange(n), "quiet": r.random() < .8,
         "fault": None, "during": []}
    if r.random() < .3:
        k = r.choice(['line', 'line', 'solver'])
        f = {"kind": k}
        if k == 'line':
            f.update(exc=r.choice(['interrupt', 'memory']),
                     site=round(r.random(), 5), occ=round(r.random(), 4),
                     tree=r.random() < .6)
        else:
            f["mode"] = r.choice(['crash', 'memory', 'interrupt', 'rank',
                                  'truncate', 'primal_infeasible',
                                  'dual_infeasible', 'unknown'])
        s["fault"] = f
    elif nested and r.random() < .3:
        for _ in range(r.choice([1, 1, 2])):
            s["during"].append({"site": round(r.random(), 5),
                                "occ": round(r.random(), 4),
                                "tree": r.random() < .5,
                                "prog": r.randrange(n)})
    return s


def gen_set(r):
    p = r.choice(sorted(T.PARAMS))
    return {"k": "set", "p": p, "v": T.values(r, p),
            "how": r.choice(['item', 'matrix'])}


def gen_near(r, steps):
    """A parameter moves by little."""
    old = [s for s in steps if s["k"] == 'set']
    s = dict(r.choice(old))
    for t in old:
        if t["p"] == s["p"]:
            s["v"] = t["v"]                    # the last one
    e = 1+r.choice([-1, 1])*r.choice([7e-4, 9e-4, 2e-3, 5e-3])
    s["v"] = [x*e for x in s["v"]] if isinstance(s["v"], list) \
        else s["v"]*e
    return s


def gen_build(r, nx):
    return {"k": "build", "fam": r.choice(sorted(T.FAMILIES)),
            "x": r.randrange(nx), "opts": r.choice([None, None, 'shared']),
            "reuse": r.random() < .3}


def plan(r, index, tier):
    nx = r.choice([1, 2, 2, 3])
    steps = [gen_build(r, nx) for _ in range(r.choice([1, 1, 2, 3]))]
    n = len(steps)
    for p in sorted(T.PARAMS):
        steps.append({"k": "set", "p": p, "v": T.values(r, p),
                      "how": 'item'})
    last = None
    for _ in range(r.choice([3, 5, 8, 12])):
        x = r.random()
        if x < .40:
            s = gen_solve(r, n)
            if last is not None and r.random() < .4:
                s["prog"] = last
            last = s["prog"]
        elif x < .66:
            s = gen_set(r) if x < .58 else gen_near(r, steps)
        elif x < .68:
            s = {"k": "lists", "prog": r.randrange(n),
                 "how": r.choice(['clear', 'reverse', 'junk'])}
        elif x < .70:
            s = {"k": "bad", "p": r.choice(ATTRIBUTES),
                 "v": r.choice(['sign', 'type'])}
        elif x < .73:
            s = {"k": "unset", "p": r.choice(sorted(T.PARAMS))}
        elif x < .80:
            o = r.choice(sorted(T.OPTIONS)+['maxiters']*3)
            s = {"k": "opt", "prog": r.randrange(n), "o": o,
                 "v": r.choice(T.OPTIONS[o]),
                 "how": r.choice(['item', 'whole'])}
        elif x < .84:
            s = {"k": "scribble", "x": r.randrange(nx),
                 "v": r.choice([0., -5., 1e6])}
        elif x < .87:
            s = {"k": "reset"}
        elif x < .93:
            s = {"k": "call", "y": r.choice([-3., -1., 0., .4, 2., 5.])}
        else:
            s = gen_build(r, nx)
            n += 1
        steps.append(s)
    steps.append(gen_solve(r, n, False))
    steps[-1]["fault"] = None
    return {"nx": nx, "steps": steps, "hash": r.choice(
        [1, 1, 48271, 16807, 1583458089, 784588716]),
        "names": r.choice(['own', 'same', 'default'])}


# ---- what is expected -------------------------------------------------------

class Model(object):
    """Parameter values and options, as the user set them."""

    def __init__(self):
        self.p = {}
        self.progs = []
        self.shared = self.fresh()

    @staticmethod
    def fresh():
        return {'maxiters': 100, 'abstol': 1e-7, 'reltol': 1e-6,
                'feastol': 1e-6}

    def apply(self, s):
        k = s["k"]
        if k == 'build':
            self.progs.append({"fam": s["fam"], "x": s["x"],
                               "o": self.shared if s["opts"] else
                               self.fresh()})
        elif k == 'set':
            self.p[s["p"]] = s["v"]
        elif k == 'unset':
            self.p[s["p"]] = None
        elif k == 'opt':
            g = self.progs[s["prog"] % len(self.progs)]
            if s["how"] == 'item':
                g["o"][s["o"]] = s["v"]
            else:
                g["o"] = dict(g["o"])
                g["o"][s["o"]] = s["v"]

    def fresh_op(self, i):
        """The equivalent fresh program, None if a value is missing."""
        g = self.progs[i % len(self.progs)]
        p = {}
        for name in T.FAMILIES[g["fam"]][1]:
            v = self.p.get(name)
            if v is None:
                return None
            p[name] = v
        return {"f": "tdr_fresh", "a": {"fam": g["fam"], "p": p,
                                        "o": dict(g["o"])}}


    def call_op(self, s):
        g = self.p.get('pos')
        return None if g is None else {
            "f": "tdr_fresh_call", "a": {"y": s["y"], "g": g}}


def ops_of(plan):
    m = Model()
    out = []
    for s in plan["steps"]:
        m.apply(s)
        if not m.progs:
            continue
        if s["k"] == 'solve':
            for i in [s["prog"]]+[d["prog"] for d in s["during"]]:
                op = m.fresh_op(i)
                if op:
                    out.append(op)
        elif s["k"] == 'call':
            op = m.call_op(s)
            if op:
                out.append(op)
    return out


# ---- execution --------------------------------------------------------------

class World(object):

    def __init__(self, run, plan):
        from pydsm import cvxpy_tdr as c
        self.c, self.run, self.plan = c, run, plan
        self.m = Model()
        self.x = [c.variable(2, 1, name=self.called('x%d' % i))
                  for i in range(plan["nx"])]
        self.p = {}
        for name in sorted(T.PARAMS):
            n, attr, _ = T.PARAMS[name]
            self.p[name] = c.parameter(n, 1, attr, name=self.called(name))
        self.fun = T.function(c, self.p['pos'])
        self.shared = Model.fresh()
        self.progs = []
        self.text = []
        self.since = {}

    def called(self, name):
        """The user's choice of names, which need not be different."""
        how = self.plan.get("names", 'own')
        if how == 'default':
            self.c.variable_reset()
            self.c.parameter_reset()
            return None
        return 'z' if how == 'same' else name

    # -- the user sees --
    def param_values(self):
        out = {}
        for name in self.p:
            if T.PARAMS[name][0] == 1:
                out[name] = float(self.p[name].value)
            else:
                out[name] = tuple(float(self.p[name][i, 0].value)
                                  for i in range(2))
        return out

    def var_values(self):
        return [tuple(float(x[i, 0].value) for i in range(2))
                for x in self.x]

    def describe(self, g):
        return (str(g.objective), str(g.constraints),
                sorted(v.name for v in g.variables),
                sorted(v.name for v in g.parameters), g.action,
                len(g.constraints))

    def intact(self, what, touched=()):
        """Nothing moved but the variables that were solved for."""
        run = self.run
        for i, g in enumerate(self.progs):
            if self.describe(g) != self.text[i]:
                run.violate('program_changed', prog=self.m.progs[i]["fam"],
                            after=what, was=self.text[i],
                            now=self.describe(g))
                return False
            if dict(g.options) != self.m.progs[i]["o"]:
                run.violate('options_changed', prog=self.m.progs[i]["fam"],
                            after=what, now=g.options)
                return False
        now = self.param_values()
        for name in now:
            want = self.m.p.get(name)
            want = np.full(T.PARAMS[name][0], np.nan) if want is None \
                else np.atleast_1d(np.array(want, dtype=float))
            if not np.array_equal(np.atleast_1d(now[name]), want,
                                  equal_nan=True):
                run.violate('parameter_changed', parameter=name, after=what,
                            now=now[name], was=want)
                return False
        for i, v in enumerate(self.var_values()):
            if i not in touched and not np.array_equal(
                    v, self.vars[i], equal_nan=True):
                run.violate('other_variable_changed', after=what, now=v,
                            was=self.vars[i])
                return False
        self.vars = self.var_values()
        return True


def execute(plan, refs):
    run = Run(plan, refs)
    kernel.solo(run.k, lambda t: body(run, plan))
    run.info["nontrivial"] = run.info.get("solved", 0) > 1
    return run.result()


def body(run, plan):
    w = World(run, plan)
    w.vars = w.var_values()
    for s in plan["steps"]:
        w.m.apply(s)
        if s["k"] == 'build':
            if not build(w, s):
                return
        elif w.progs:
            if not STEP[s["k"]](run, w, s):
                return
        elif s["k"] in ('set', 'unset'):
            STEP[s["k"]](run, w, s)
        if s["k"] != 'solve':
            for i in w.since:
                w.since[i].add(s["k"])
            if not w.intact(s["k"]):
                return


def build(w, s):
    f = T.FAMILIES[s["fam"]][0]
    kw = {"options": w.shared} if s["opts"] else {}

    def make():
        pair, cons = f(w.c, w.x[s["x"] % len(w.x)], w.p, w.fun)
        g = w.c.program(pair, cons, **kw)
        if s["reuse"]:
            del cons[:]                  # the list belongs to the caller
        return g
    kind, g = w.run.k.call(kernel.OpCtx('build'), make)
    if kind == 'exc':
        w.run.violate('program_not_built', fam=s["fam"], exc='%s: %s' % (
            type(g).__name__, g))
        return False
    w.progs.append(g)
    w.text.append(w.describe(g))
    w.run.k.emit('build', s["fam"])
    w.since[len(w.progs)-1] = {'build'}
    return True


def set_(run, w, s):
    name, v = s["p"], s["v"]
    run.k.emit('set', name, v)
    p = w.p[name]
    if T.PARAMS[name][0] == 1:
        p.value = v
    elif s["how"] == 'matrix':
        p.value = w.c.matrix(np.array(v).reshape(-1, 1))
    else:
        for i in range(2):
            p[i, 0].value = v[i]
    return True


def unset(run, w, s):
    p = w.p[s["p"]]
    run.k.emit('unset', s["p"])
    for q in ([p] if T.PARAMS[s["p"]][0] == 1 else [p[0, 0], p[1, 0]]):
        q.value = np.nan
    return True


def bad(run, w, s):
    name = s["p"]
    p = w.p[name]
    q = p if T.PARAMS[name][0] == 1 else p[1, 0]
    v = [1.] if s["v"] == 'type' else (1. if name == 'neg' else -1.)
    run.k.fault('illegal_value')
    try:
        q.value = v
    except (ValueError, TypeError):
        return True
    run.violate('illegal_value_accepted', parameter=name, value=v)
    return False


def opt(run, w, s):
    i = s["prog"] % len(w.progs)
    g = w.progs[i]
    run.k.emit('option', i, s["o"], s["v"])
    if s["how"] == 'item':
        g.options[s["o"]] = s["v"]
    else:
        o = dict(g.options)
        o[s["o"]] = s["v"]
        g.options = o
    return True


def scribble(run, w, s):
    x = w.x[s["x"] % len(w.x)]
    run.k.fault('overwrite_values')
    m = x.value
    m[...] = s["v"]
    x.value = m
    x[0, 0].value = s["v"]+1
    w.vars = w.var_values()
    return True


def reset(run, w, s):
    w.c.variable_reset()
    w.c.parameter_reset()
    run.k.fault('counters_reset')
    return True


def lists(run, w, s):
    """The caller does as it pleases with the lists it was given."""
    g = w.progs[s["prog"] % len(w.progs)]
    run.k.fault('overwrite_lists')
    for o in (g, g.objective, g.constraints):
        for x in (o.variables, o.parameters):
            if s["how"] == 'clear':
                del x[:]
            elif s["how"] == 'reverse':
                list.reverse(x)
            elif len(x):
                list.append(x, x[0])
    return True


def call(run, w, s):
    op = w.m.call_op(s)
    if op is None:
        ctx = kernel.OpCtx('call')
        res = do(run, w, ctx, 'call', lambda: float(w.fun(s["y"])))
        if res[0] != 'exc' or type(res[1]) is not ValueError:
            run.violate('missing_parameter_ignored', got=brief(outcome(res)))
            return False
        return True
    ref = run.ref(op)
    ctx = H.context(run, op, ref, [])
    res = do(run, w, ctx, 'call', lambda: ('called', float(w.fun(s["y"]))))
    d = matches(res, ref, 'tdr_fresh_call')
    if d and not close(res, ref):
        run.violate('call_differs', y=s["y"], difference=d)
        return False
    return True


def close(res, ref):
    o = outcome(res)
    return o[0] == 'ok' and ref["out"][0] == 'ok' and abs(
        o[1][1]-ref["out"][1][1]) < 1e-4


def do(run, w, ctx, what, f):
    k = run.k
    k.emit('t0', 'begin', what)
    res = k.call(ctx, f)
    run.events += ctx.n
    k.emit('t0', 'end', what, res[0], ops.digest(res[1])
           if res[0] == 'ok' else type(res[1]).__name__)
    return res


def solve(run, w, s):
    ok, touched = solve1(run, w, s["prog"], s, s["quiet"])
    return ok and w.intact('solve', touched)


def solve1(run, w, prog, s, quiet, depth=0):
    i = prog % len(w.progs)
    g = w.progs[i]
    fam = w.m.progs[i]["fam"]
    xi = w.m.progs[i]["x"] % len(w.x)
    touched = set([xi])
    op = w.m.fresh_op(prog)
    specs = []
    ref = run.ref(op) if op else None
    f = s["fault"] if s else None
    if f and f["kind"] == 'line':
        specs = [{"do": "raise", "exc": f["exc"], "site": f["site"],
                  "occ": f["occ"], "tree": f["tree"]}]
    if s:
        for d in s["during"]:
            specs.append(dict(d, do="hook"))
    trig = triggers(ref, specs) if ref else []
    ctx = kernel.OpCtx('solve '+fam, trig,
                       budget=20*ref["n"]+2000000 if ref else None)
    if f and f["kind"] == 'solver':
        ctx.solver_plan = [{"mode": f["mode"]}]
    good = [True]

    def hook(trig, where):
        j = trig["prog"] % len(w.progs)
        if w.m.progs[j]["x"] % len(w.x) in touched:
            return
        run.k.fault('nested_solution')
        ok, t = solve1(run, w, trig["prog"], None, True, 1)
        touched.update(t)
        good[0] = good[0] and ok
    ctx.hook = hook

    def act():
        obj, valid = g.solve(quiet, True)
        return T.solution(obj, valid, w.x[xi])
    res = do(run, w, ctx, 'solve %d %s' % (i, fam), act)
    run.info["solved"] = run.info.get("solved", 0)+1
    since = sorted(w.since[i])
    w.since[i] = set()
    if not good[0]:
        return False, touched
    if ctx.injected or any(x.startswith('solver_') for x in ctx.faults):
        run.state(fam, since, 'fault', f and (f.get("mode") or f["exc"]))
        w.since[i].add('fault')
        return True, touched                  # see C05 and C07
    o = outcome(res)
    if op is None:
        # a parameter has no value
        run.state(fam, since, 'nan')
        if o[0] != 'exc' or o[1] != 'ValueError':
            run.violate('solved_without_parameters', fam=fam, got=brief(o))
            return False, touched
        return True, touched
    d = differs(o, ref["out"], fam, w.m.progs[i]["o"]["maxiters"])
    run.state(fam, since, o[0], o[0] == 'ok' and (
        o[1][2], bool(np.isfinite(o[1][1]))))
    if d:
        run.violate('differs_from_fresh_program', fam=fam, difference=d,
                    params=op["a"]["p"], since=since)
        return False, touched
    calls = [x for n, x in ctx.seams if n == 'cvxopt']
    ropts = [x for n, x in ref["seams"] if n == 'cvxopt']
    want = w.m.progs[i]["o"]
    if calls and ropts and any(calls[-1].get(k) != want[k] for k in want):
        run.violate('options_not_used', fam=fam, got=calls[-1], want=want)
        return False, touched
    return True, touched


def differs(o, ref, fam, iters):
    if o[0] != ref[0]:
        return '%s instead of %s' % (brief(o), brief(ref))
    if o[0] == 'exc':
        return None if o[1:] == ref[1:] else '%s instead of %s' % (
            brief(o), brief(ref))
    (_, obj, valid, x), (_, robj, rvalid, rx) = o[1], ref[1]
    if not (valid and rvalid):
        # accuracy not reached: rounding may tell the two apart
        if valid != rvalid and np.isfinite(robj) and np.isfinite(obj) \
                and abs(obj-robj) < 1e-3*(1+abs(robj)):
            return None
        if valid != rvalid:
            return 'valid %s instead of %s' % (valid, rvalid)
        # (the first iterations do not depend on rounding)
        if iters <= 6 and np.isfinite(robj) and not (
                abs(obj-robj) < 1e-3*(1+abs(robj)) and
                np.all(np.abs(np.subtract(x, rx)) < 1e-2*(1+np.abs(rx)))):
            return 'approximation %r, %r instead of %r, %r' % (
                obj, x, robj, rx)
        return None
    if not np.isfinite(robj) or not np.isfinite(obj):
        return None if obj == robj else 'optimum %r instead of %r' % (
            obj, robj)
    if abs(obj-robj) > 4e-6*(1+abs(robj)):
        return 'optimum %r instead of %r' % (obj, robj)
    if T.FAMILIES[fam][2] and np.any(np.abs(
            np.subtract(x, rx)) > 4e-4*(1+np.abs(rx))):
        return 'variables %r instead of %r' % (x, rx)
    return None


STEP = {'set': set_, 'lists': lists, 'unset': unset, 'bad': bad,
        'opt': opt, 'call': call, 'scribble': scribble, 'reset': reset, 'solve': solve}


def shrink(plan):
    for g in (lambda: S.lists(plan, ('steps',), 1),
              lambda: S.lists(plan, ('during',)),
              lambda: S.nulls(plan, ('fault', 'opts')),
              lambda: S.values(plan, 'hash', 1),
              lambda: S.values(plan, 'names', 'own')):
        for p in g():
            yield p
