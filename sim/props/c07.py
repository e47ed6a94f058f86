"""C07: a failed optimization is never passed off as a design."""

import random
import re

import numpy as np

from .. import history as H
from .. import kernel, ops
from .. import optcalls as O
from .. import shrink as S
from ..run import Run, brief, outcome

ID = 'C07'
TIERS = {'quick': (8000, 110.), 'thorough': (10**7, 780.)}
RULE = ('A run makes 1-4 designs through a random modeler and solver, whose '
        'invocations are truncated, broken down, declared infeasible or '
        'inaccurate, or set up on infeasible requests; designs returned '
        'without warning are judged by an independent evaluation.')
STATES = ('(function, modeler, solver, kind of failure, how it was '
          'reported)')
ASSUME = ['a warning not given by the undisturbed call, whose text speaks of '
          'accuracy, optimality or convergence, tells that the result is '
          'approximate',
          'gain, cost and conjugate symmetry are judged on a frequency grid '
          'with a relative tolerance of 2e-3']
TELLS = re.compile('accura|approx|optim|converg|infeas|solution|solver|'
                   'iterat|fail', re.I)
TOL = 2e-3
FNS = ['from_q0', 'weighting', 'hybrid', 'minmax', 'audio', 'from_filter']


def gen_design(r):
    fn = r.choice(FNS)
    a = O.gen_args(r, fn)
    if fn == 'minmax':
        a["osr"] = r.choice([4, 8, 16])
        a["n"] = r.choice([2, 3, 4])
    if fn in ('weighting', 'hybrid', 'from_filter'):
        a["n"] = r.choice([2, 3, 4])
    if fn == 'hybrid':
        a["p"] = r.choice([[], [.4], [.3, -.2]])
    if "H" in a:
        a["H"] = r.choice([1.3, 1.5, 2., 3., 1.5, 2., .9, .4])
    mod = r.choice(['cvxpy_old', 'cvxpy_old', 'cvxpy_old', 'cvxpy', 'cvxpy',
                    'picos'])
    o = {"modeler": mod, "show_progress": False}
    if mod == 'cvxpy' and r.random() < .35:
        o["cvxpy_opts"] = {"solver": "scs"}
        o["scs_opts"] = {"eps": 1e-8, "max_iters": 20000}
    elif r.random() < .3:
        o["cvxopt_opts"] = {"abstol": 1e-8, "reltol": 1e-7, "feastol": 1e-7}
    return {"f": "opt_call", "a": {"fn": fn, "args": a, "opts": o}}


def plan(r, index, tier):
    calls = []
    size = 4000 if tier == 'thorough' else 120

    def pick():
        # references are costly: the designs come from a fixed pool
        return gen_design(random.Random('design/%d' % r.randrange(size)))

    # several designs, often of the same kind
    base = pick()
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        d = base if r.random() < .5 else pick()
        f = None
        x = r.random()
        if x < .62:
            f = {"kind": "solver", "n": r.choice([0, 0, 0, 0, 1]),
                 "mode": r.choice(['truncate', 'truncate', 'truncate',
                                   'unknown', 'unknown', 'crash', 'rank',
                                   'memory', 'interrupt',
                                   'primal_infeasible', 'dual_infeasible']),
                 "iters": r.choice([0, 1, 2, 3, 4, 5, 7, 10]),
                 "off": r.choice([.02, .1, .5, 2., -1.])}
        elif x < .8:
            f = {"kind": "maxiters", "n": r.choice([1, 2, 3, 4, 6, 9])}
        calls.append({"op": d, "fault": f})
    return {"calls": calls}


def ops_of(plan):
    return [c["op"] for c in plan["calls"]]


def execute(plan, refs):
    run = Run(plan, refs)
    kernel.solo(run.k, lambda t: body(run, plan))
    return run.result()


def body(run, plan):
    run.info["nontrivial"] = 0
    for i, c in enumerate(plan["calls"]):
        one(run, i, c)


def one(run, i, c):
    op, f = c["op"], c["fault"]
    ref = run.ref(op)
    ctx = H.context(run, op, ref, [])
    opts = dict(op["a"]["opts"])
    if f and f["kind"] == 'solver':
        ctx.solver_plan = [None]*f["n"]+[f]
    if f and f["kind"] == 'maxiters':
        run.k.fault('few_iterations')
        if "scs_opts" in opts:
            opts["scs_opts"] = dict(opts["scs_opts"], max_iters=f["n"])
        else:
            opts["cvxopt_opts"] = dict(opts.get("cvxopt_opts") or {},
                                       maxiters=f["n"])
    live = {"f": "opt_call", "a": dict(op["a"], opts=opts)}
    # same call path as the reference
    env = ops.Env(callback=lambda g, a, k: g(*a, **k))
    res = run.issue(live, env, ctx)
    told = [w for w in ctx.warns if w not in ref["warns"] and
            TELLS.search(w[0]+' '+w[1])]
    a = op["a"]["args"]
    how = 'error' if res[0] == 'exc' else 'warning' if told else 'nothing'
    run.state(op["a"]["fn"], op["a"]["opts"]["modeler"],
              "scs_opts" in opts, f and (f["kind"], f.get("mode")), how)
    run.info["nontrivial"] += int(a.get("H", 2.) < 1)
    run.info['reported_'+how] = run.info.get('reported_'+how, 0)+1
    if res[0] == 'exc':
        if ref["out"][0] == 'ok' and not ctx.faults and not f:
            run.violate('error_without_reason', call=i, op=op,
                        got=brief(outcome(res)))
        return
    if told or (not f and [w for w in ctx.warns if TELLS.search(
            w[0]+' '+w[1])]):
        return
    why = judge(op["a"]["fn"], a, res[1], ref)
    if why:
        run.violate('bad_design_returned', call=i, op=op, fault=f, why=why,
                    got=brief(outcome(res)))


def weight_on(fn, a, f):
    if fn == 'audio':
        from pydsm import audio_weightings as m
        w = getattr(m, a["w"]+'_weighting')
        fx = f*22.05e3*2*a["osr"]
        floor = 10**(-a["att"]/10.)
        return np.array([max(float(w(x)) if x <= 22.05e3 else 0., floor)
                         for x in fx])
    s = a["w"]
    if s["k"] in ('zpk', 'ba'):
        t = ops.weight(s)
        z = np.exp(2j*np.pi*f)
        if s["k"] == 'ba':
            h = np.polyval(t[0], z)/np.polyval(t[1], z)
        else:
            h = t[2]*np.prod([z-q for q in t[0]], 0) / \
                np.prod([z-q for q in t[1]], 0)
        return np.abs(h)**2
    w = np.array([ops.weight(s)(x) for x in f])
    # that interface takes the magnitude of the filter
    return w**2 if fn == 'from_filter' else w


def gain(value, f):
    b, p, k = value[0], value[1], value[2]
    z = np.exp(2j*np.pi*f)
    return np.abs(k*np.polyval(b, z)/np.polyval(p, z))


def cost(fn, a, value):
    if fn == 'from_q0':
        h = np.real(value[0])
        q = np.array(a["q"])
        n = len(q)
        Q = np.array([[q[abs(i-j)] for i in range(n)] for j in range(n)])
        return float(h.dot(Q).dot(h))
    if fn == 'minmax':
        f = np.linspace(0, .5/a["osr"], 200)
        return float(np.max(gain(value, f)))
    f = (np.arange(2000)+.5)/4000
    return float(np.mean(weight_on(fn, a, f)*gain(value, f)**2))


def judge(fn, a, value, ref):
    """None, or why the value returned is not a proper design."""
    n = len(a["q"])-1 if fn == 'from_q0' else a["n"]
    b, p, k, nz, np_ = value
    if nz != n or np_ != n:
        return '%d zeros and %d poles for order %d' % (nz, np_, n)
    if not (np.all(np.isfinite(b)) and np.all(np.isfinite(p))):
        return 'not finite'
    if k != 1:
        return 'not monic: gain %r' % k
    poles = np.zeros(n)
    if fn == 'hybrid':
        poles[:len(a["p"])] = a["p"]
    d = np.poly(poles)
    if np.max(np.abs(p-d)) > 1e-9:
        return 'poles not as requested'
    if np.max(np.abs(np.imag(b))) > 1e-6:
        return 'complex coefficients'
    f = np.linspace(0, .5, 1001)
    g = gain(value, f)
    hinf = a.get("H", 1.5)
    if np.max(g) > hinf*(1+TOL):
        return 'peak gain %.6g beyond %g' % (np.max(g), hinf)
    if ref["out"][0] == 'ok' and np.all(np.isfinite(ref["out"][1][0])):
        if fn == 'from_q0' and indefinite(a["q"]):
            return None
        mine, best = cost(fn, a, value), cost(fn, a, ref["out"][1])
        if mine > best*(1+TOL)+1e-7*abs(best):
            return 'cost %.8g while %.8g is possible' % (mine, best)
    return None


def indefinite(q):
    n = len(q)
    Q = np.array([[q[abs(i-j)] for i in range(n)] for j in range(n)])
    return np.linalg.eigvalsh(Q)[0] < 1e-9


def shrink(plan):
    for g in (lambda: S.lists(plan, ('calls',), 1),
              lambda: S.nulls(plan, ('fault',))):
        for p in g():
            yield p
