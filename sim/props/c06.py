"""C06: default_options are honoured per function, explicit ones per call."""

import copy

from .. import history as H
from .. import kernel, ops
from .. import optcalls as O
from .. import shrink as S
from ..run import Run, brief, matches, outcome, triggers

ID = 'C06'
TIERS = {'quick': (6000, 110.), 'thorough': (10**7, 780.)}
RULE = ('A run is a history of 2-9 steps: changes to the default options of '
        'random functions (single items, nested dictionaries, whole '
        'attribute, items removed) and calls carrying random explicit '
        'options, some of them made to fail by callbacks, solvers, '
        'interrupts or bad options; a model of the defaults predicts '
        'what must reach the integrators, optimizers, solvers and '
        'simulators. '
        'Runs where a default differs from the shipped one when a call is '
        'made count as non-trivial.')
STATES = ('(function, defaults changed before the call, explicit options, '
          'kind of failure)')
ASSUME = ['a call is equivalent to the same call, alone, with all the '
          'options in force given explicitly',
          'option values are legal ones, as documented']


class CallbackError(Exception):
    pass


def model_set(model, st):
    d = model[st["o"]]
    if st["k"] == 'del':
        # the default of the third party routine is back in force
        d[st["key"]] = dict(d[st["key"]])
        d[st["key"]][st["sub"]] = O.THIRD[st["key"]][st["sub"]]
    elif st["sub"] is None:
        d[st["key"]] = copy.deepcopy(st["v"])
    else:
        d[st["key"]] = dict(d[st["key"]])
        d[st["key"]][st["sub"]] = copy.deepcopy(st["v"])


def subs(model, o, key):
    return [s for s in O.VALUES[key] if s in model[o][key]]


def plan(r, index, tier):
    model = O.shipped()
    cls = r.choices(['quad', 'solver', 'optim', 'switch', 'all'],
                    [35, 35, 8, 7, 15])[0]
    fns = r.sample(sorted(O.FUNCS), 4) if cls == 'all' else \
        list(O.CLASSES[cls])
    if r.random() < .5:
        fns = r.sample(fns, min(len(fns), 3))
    n = r.choice([2, 3, 4, 6, 9] if cls in ('quad', 'switch')
                 else [2, 3, 4, 5])
    steps = []
    # quiet by default, in most runs
    if r.random() < .7:
        for o in sorted(set(O.OWNER[f] for f in fns)):
            if 'show_progress' in model[o]:
                steps.append({"k": "set", "o": o, "key": "show_progress",
                              "sub": None, "v": False, "how": "item"})
                model_set(model, steps[-1])
    for _ in range(n):
        x = r.random()
        if x < .10:
            o = O.OWNER[r.choice(fns)]
            keys = [k for k in sorted(model[o]) if k in O.THIRD
                    and o in O.DIRECT
                    and (o, k) != ('hybrid', 'quad_opts')]
            if keys:
                key = r.choice(keys)
                st = {"k": "del", "o": o, "key": key,
                      "sub": r.choice(sorted(O.THIRD[key])),
                      "how": r.choice(['item', 'nested'])}
                model_set(model, st)
                steps.append(st)
        elif x < .45:
            o = O.OWNER[r.choice(fns)]
            key = r.choice([k for k in sorted(model[o]) if k in O.VALUES])
            sub = None
            if isinstance(model[o][key], dict):
                sub = r.choice(sorted(subs(model, o, key)))
            st = {"k": "set", "o": o, "key": key, "sub": sub,
                  "v": O.value(r, key, sub),
                  "how": r.choice(['item', 'item', 'nested', 'whole'])}
            model_set(model, st)
            steps.append(st)
        else:
            steps.append(gen_call(r, model, r.choice(fns)))
    if not any(s["k"] == 'call' for s in steps):
        steps.append(gen_call(r, model, r.choice(fns)))
    return {"steps": steps}


def gen_call(r, model, fn):
    o = O.OWNER[fn]
    ex = {}
    if r.random() < .6:
        # the choice of modeler comes first, as it rules the others
        if 'modeler' in model[o] and r.random() < .4:
            ex["modeler"] = O.value(r, 'modeler')
        if 'cvxpy_opts' in model[o] and r.random() < .3 and \
                O.overlay(model[o], ex)["modeler"] == 'cvxpy':
            sub = r.choice(['override_kktsolver', 'solver'])
            ex["cvxpy_opts"] = {sub: O.value(r, 'cvxpy_opts', sub)}
        for key in O.accepted(fn, O.overlay(model[o], ex)):
            if key in ('modeler', 'cvxpy_opts') or r.random() < .5:
                continue
            if isinstance(model[o][key], dict):
                c = subs(model, o, key)
                ex[key] = dict((s, O.value(r, key, s)) for s in
                               r.sample(c, r.choice([
                                   len(c), r.randint(0, len(c))])))
            else:
                ex[key] = O.value(r, key)
    f = None
    if r.random() < .25:
        kind = r.choice(['callback', 'solver', 'bogus', 'line'])
        f = {"kind": kind}
        if kind == 'callback':
            f["n"] = r.choice([0, 1, 5, 21, 30])
        elif kind == 'solver':
            f["mode"] = r.choice(['crash', 'interrupt', 'truncate',
                                  'primal_infeasible'])
        elif kind == 'line':
            f.update(exc=r.choice(['interrupt', 'memory']),
                     site=round(r.random(), 5), occ=round(r.random(), 4),
                     tree=r.random() < .5)
    a = O.gen_args(r, fn)
    if fn in ('weighting', 'hybrid') and r.random() < .2:
        # not a legitimate weighting: what follows depends on fix_pos
        a.update(n=3, w={"k": 'cos', "c": [.05, 1., .4]})
    return {"k": "call", "fn": fn, "args": a, "ex": ex, "fault": f}


def full(model, st):
    eff = O.overlay(model[O.OWNER[st["fn"]]], st["ex"])
    opts = dict((k, eff[k]) for k in O.accepted(st["fn"], eff))
    # what was given explicitly is still given, even if out of place
    for k, v in st["ex"].items():
        opts.setdefault(k, v)
    return {"f": "opt_call", "a": {"fn": st["fn"], "args": st["args"],
                                   "opts": opts}}


def fulls(plan):
    model = O.shipped()
    out = []
    for st in plan["steps"]:
        if st["k"] != 'call':
            model_set(model, st)
        else:
            out.append(full(model, st))
    return out


def ops_of(plan):
    return fulls(plan)


def execute(plan, refs):
    run = Run(plan, refs)
    kernel.solo(run.k, lambda t: body(run, plan))
    return run.result()


def apply_set(st):
    f = O.func(st["o"])
    v = copy.deepcopy(st.get("v"))
    if st["k"] == 'del':
        d = f.default_options
        if st["how"] == 'nested':
            d[st["key"]] = dict(d[st["key"]])
        d[st["key"]].pop(st["sub"], None)
        return
    if st["how"] == 'whole':
        f.default_options = copy.deepcopy(f.default_options)
    d = f.default_options
    if st["sub"] is None:
        d[st["key"]] = v
    elif st["how"] == 'nested':
        d[st["key"]] = dict(d[st["key"]], **{st["sub"]: v})
    else:
        d[st["key"]][st["sub"]] = v


def body(run, plan):
    model = O.shipped()
    pristine = copy.deepcopy(model)
    actual = copy.deepcopy(model)            # what the user left there
    full_ops = fulls(plan)
    nc = 0
    run.info["nontrivial"] = 0
    for i, st in enumerate(plan["steps"]):
        if st["k"] != 'call':
            model_set(model, st)
            apply_set(st)
            if st["k"] == 'set':
                model_set(actual, st)
            else:
                actual[st["o"]][st["key"]].pop(st["sub"], None)
            run.k.emit(st["k"], st["o"], st["key"], st["sub"], st.get("v"))
        else:
            changed = [k for k in model[O.OWNER[st["fn"]]]
                       if model[O.OWNER[st["fn"]]][k] !=
                       pristine[O.OWNER[st["fn"]]][k]]
            others = any(model[o] != pristine[o] for o in model)
            run.info["nontrivial"] += int(others)
            f = st["fault"]
            run.state(st["fn"], sorted(changed), sorted(st["ex"]),
                      f and f["kind"])
            if not one(run, i, st, model, full_ops[nc]):
                return
            nc += 1
        for o in O.OWNERS:
            d = ops.exactly(O.func(o).default_options, actual[o]) \
                if list(O.func(o).default_options) == list(actual[o]) else \
                'items changed'
            if d:
                run.violate('defaults_changed', of=o, step=i, after=st,
                            what=d)
                return


def one(run, i, st, model, fop):
    eff = O.overlay(model[O.OWNER[st["fn"]]], st["ex"])
    f = st["fault"]
    ref = run.ref(fop)
    op = {"f": "opt_call", "a": {"fn": st["fn"], "args": st["args"],
                                 "opts": copy.deepcopy(st["ex"])}}
    specs = []
    if f and f["kind"] == 'line':
        specs = [{"do": "raise", "exc": f["exc"], "site": f["site"],
                  "occ": f["occ"], "tree": f["tree"]}]
    if f and f["kind"] == 'bogus':
        op["a"]["opts"]["no_such_option"] = 1
    ctx = H.context(run, op, ref, specs)
    if f and f["kind"] == 'solver':
        ctx.solver_plan = [{"mode": f["mode"], "iters": 2}]

    def callback(g, a, k):
        n = ctx.cb
        ctx.cb += 1
        if f and f["kind"] == 'callback' and n == f["n"]:
            run.k.fault('callback_error')
            e = CallbackError('injected')
            ctx.injected.append(e)
            raise e
        return g(*a, **k)
    env = ops.Env(callback=callback)
    run.k.emit('options', sorted((k, str(v)) for k, v in st["ex"].items()))
    res = run.issue(op, env, ctx)
    if f and f["kind"] == 'bogus':
        run.k.fault('unknown_option')
    why = env.modified()
    if why:
        run.violate('argument_modified', step=i, call=st, what=why)
        return False
    clean = not ctx.faults and not (f and f["kind"] == 'bogus')
    why = check_options(st["fn"], eff, ctx, clean and res[0] == 'ok')
    if why and not (f and f["kind"] == 'solver' and f["mode"] == 'truncate'
                    and 'maxiters' in why):
        run.violate('wrong_options', step=i, call=st, what=why)
        return False
    if clean:
        d = matches(res, ref, 'opt_call')
        if d:
            run.violate('result_differs', step=i, call=st, difference=d,
                        expected_as=fop["a"]["opts"])
            return False
        a, b = H.norm_seams(ctx.seams), H.norm_seams(ref["seams"])
        if a != b and [n for n, _ in a] != [n for n, _ in b]:
            run.violate('wrong_routine', step=i, call=st,
                        got=[n for n, _ in a], expected=[n for n, _ in b])
            return False
    return True


def check_options(fn, eff, ctx, done):
    """Compare what reached the third party routines with the model."""
    seen = {}
    for n, o in ctx.seams:
        seen.setdefault(n, []).append(o)
    if fn in O.WITH_QUAD:
        q = eff["quad_opts"]
        want = dict(q, points=None if q["points"] is None
                    else tuple(float(p) for p in q["points"]))
        for o in seen.get('quad', ()):
            for k in want:
                if o.get(k) != want[k]:
                    return 'quad got %s=%r instead of %r' % (
                        k, o.get(k), want[k])
        if done and not seen.get('quad'):
            return 'no integration'
    if fn in O.SOLVER:
        m = eff["modeler"]
        scs = m == 'cvxpy' and eff["cvxpy_opts"]["solver"] == 'scs'
        for front in ('cvxpy', 'picos'):
            if front in seen and m != front:
                return 'modeler %s instead of %s' % (front, m)
        if ('scs' in seen and not scs) or ('cvxopt' in seen and scs):
            return 'solver %s used' % ('scs' if 'scs' in seen else 'cvxopt')
        for o in seen.get('cvxopt', ()):
            for k, v in eff["cvxopt_opts"].items():
                if o.get(k) != v:
                    return 'cvxopt got %s=%r instead of %r' % (
                        k, o.get(k), v)
            if bool(o.get('show_progress', True)) != eff["show_progress"]:
                return 'cvxopt got show_progress=%r' % (
                    o.get('show_progress'))
            if m == 'cvxpy' and eff["cvxpy_opts"]["override_kktsolver"] \
                    and o["kkt"] != 'chol':
                return 'kkt solver %r' % o["kkt"]
        for o in seen.get('cvxpy', ()):
            # (the frontend has the same solver as its own default)
            if not scs and ('kktsolver' in o) != \
                    bool(eff["cvxpy_opts"]["override_kktsolver"]):
                return 'cvxpy got kktsolver=%r' % o.get('kktsolver')
        for o in seen.get('scs', ()):
            for k, v in eff["scs_opts"].items():
                for kk in (['eps_abs', 'eps_rel'] if k == 'eps' and
                           'eps' not in o else [k]):
                    if o.get(kk) != v:
                        return 'scs got %s=%r instead of %r' % (
                            kk, o.get(kk), v)
            if bool(o.get('verbose')) != eff["show_progress"]:
                return 'scs got verbose=%r' % o.get('verbose')
        if done:
            if m in ('cvxpy', 'picos') and m not in seen:
                return 'modeler %s not used' % m
            if ('scs' if scs else 'cvxopt') not in seen:
                return 'solver not used'
    if fn in O.OPTIM:
        method = 'slsqp' if fn == 'clans' else 'l-bfgs-b'
        rec = [o["options"] for o in seen.get('minimize', ())
               if o["method"] == method]
        for o in rec:
            for k, v in eff[O.NAMES[method]].items():
                if o.get(k, O.THIRD[O.NAMES[method]][k]) != v:
                    return '%s got %s=%r instead of %r' % (
                        method, k, o.get(k), v)
            if fn == 'clans' and bool(o.get('disp', False)) != \
                    eff["show_progress"]:
                return 'slsqp got disp=%r' % o.get('disp')
        if done and not rec:
            return 'optimizer %s not used' % method
    if fn == 'simulateDSM':
        for o in seen.get('compiled', ()):
            if eff["backend"] not in (o["backend"], 'auto'):
                return 'backend %s instead of %s' % (o["backend"],
                                                     eff["backend"])
    return None


def shrink(plan):
    for g in (lambda: S.lists(plan, ('steps',), 1),
              lambda: S.nulls(plan, ('fault',)),
              lambda: drop_ex(plan),
              lambda: S.values(plan, 'how', 'item')):
        for p in g():
            if any(s["k"] == 'call' for s in p["steps"]):
                yield p


def drop_ex(plan):
    for i, s in enumerate(plan["steps"]):
        if s["k"] == 'call':
            for k in s["ex"]:
                e = dict(s["ex"])
                del e[k]
                yield S._with(plan, ('steps', i, 'ex'), e)
