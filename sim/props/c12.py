"""C12: the package degrades as documented when components are missing."""

import numpy as np

from .. import history as H
from .. import kernel, ops, optional, world
from .. import shrink as S
from ..run import Run, brief, budget, chain, diff, matches, outcome, \
    snapshot, triggers

ID = 'C12'
PACKAGE = False
TIERS = {'quick': (5000, 110.), 'thorough': (10**7, 780.)}
RULE = ('A run starts from a process in which neither the package nor its '
        'optional components are loaded; some are missing, broken, or fail '
        'the first times they are imported (module not found, missing '
        'shared library, half initialised module, I/O error, no memory, '
        'incompatible version, interrupt). The start-up imports of the user '
        'may be interrupted at a seeded line and tried again. Then come 3-9 '
        'calls, interleaved with losses and recoveries of components, '
        'changes of the default back-ends, and interrupts at seeded lines, '
        'also while modules are being imported. Each call is compared with '
        'the same call made alone with everything available. Runs in which '
        'an import failed, or that were interrupted, are non-trivial.')
STATES = ('(component states, components loaded, operation, component it '
          'needs, outcome) of each call made')
ASSUME = ['CVXPY and PICOS are loaded for real once, in the parent process; '
          'simulated processes importing them get that copy',
          'a component that has been loaded stays loaded']
REAL = ['pydsm, imported anew in each run', 'numpy, scipy, cvxopt, scs, '
        'cvxpy, picos, matplotlib']
STUB = ['the import system, as far as the optional components and the '
        'modules of the package are concerned']

OWNERS = ['ntf_fir_weighting', 'ntf_fir_minmax', 'ntf_hybrid_weighting']
# functions that go by the defaults of another one
SHARED = {('ntf_fir_minmax_bands', None): 'ntf_fir_minmax',
          ('solver_aliases', 'minmax'): 'ntf_fir_minmax',
          ('solver_aliases', 'noise'): 'ntf_fir_weighting'}
MODELED = [n for n in ops.names('solver') if n not in ops.names('tdr')]


# ---- plans ------------------------------------------------------------------

def modeled(r, tier, mods):
    """An operation using one of the modelers, out of a small pool."""
    import hashlib
    import random
    mod = r.choice(mods)
    names = [f for f in MODELED
             if mod in ops.MODS.get(f, ops.MODELERS)]
    n = r.randrange(8 if tier != 'thorough' else 40)
    h = hashlib.blake2b(('c12/%s/%d' % (mod, n)).encode(),
                        digest_size=8).digest()
    q = random.Random(int.from_bytes(h, 'big'))
    name = names[n % len(names)]
    return {"f": name, "a": H.stratified(
        name, q, ops.MODS.get(name, ops.MODELERS).index(mod))}


def gen_fault(r):
    return {"exc": 'interrupt', "site": round(r.random(), 5),
            "occ": round(r.random(), 4), "tree": r.random() < .6}


def gen_call(r, tier, last):
    x = r.random()
    if last and x < .3:
        op = last
    elif x < .62:
        op = modeled(r, tier, ['cvxpy', 'picos', 'cvxpy', 'picos',
                               'cvxpy_old', 'default'])
    elif x < .84:
        op = {"f": 'simulateDSM', "a": ops.GEN['simulateDSM'](r)}
        if r.random() < .5:
            op["a"]["backend"] = 'cblas'
    elif x < .88:
        op = H.pick(r, 'bad', 's0', tier)
    else:
        op = H.pick(r, r.choice(['cheap', 'cheap', 'callback', 'medium',
                                 'tdr', 'plot']), 's0', tier)
    return {"k": "call", "op": op,
            "fault": gen_fault(r) if r.random() < .2 else None}


def gen_state(r):
    return {"kind": r.choice(optional.KINDS),
            "times": r.choice([None, None, 1, 2])}


def plan(r, index, tier):
    p = {"start": {}, "order": [r.randrange(len(optional.MODULES))
                                for _ in range(r.choice([1, 1, 2, 3]))],
         "interrupts": [], "steps": []}
    for c in optional.COMPONENTS:
        if r.random() < .5:
            p["start"][c] = gen_state(r)
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        p["interrupts"].append(gen_fault(r))
    last = None
    for _ in range(r.choice([3, 4, 6, 9])):
        x = r.random()
        if x < .68:
            s = gen_call(r, tier, last)
            last = s["op"]
        elif x < .80:
            s = {"k": "lose", "c": r.choice(['cvxpy', 'picos'])}
            s.update(gen_state(r))
        elif x < .93:
            s = {"k": "recover", "c": r.choice(optional.COMPONENTS)}
        elif x < .97:
            s = {"k": "default", "f": r.choice(OWNERS),
                 "v": r.choice(['cvxpy', 'picos', 'cvxpy_old'])}
        else:
            s = {"k": "default", "f": 'simulateDSM',
                 "v": r.choice(['cblas', 'scipy', 'auto'])}
        p["steps"].append(s)
    for c in optional.COMPONENTS:
        p["steps"].append({"k": "recover", "c": c})
    for op in [s["op"] for s in p["steps"] if s["k"] == 'call'][-2:]:
        p["steps"].append({"k": "call", "op": op, "fault": None})
    return p


# ---- what is expected -------------------------------------------------------

class Defaults(object):

    def __init__(self):
        self.v = {}

    def effective(self, op):
        """The operation with its defaults made explicit, what it needs."""
        a = op["a"]
        f = op["f"]
        if f == 'simulateDSM':
            b = a["backend"]
            if a.get("default_backend"):
                b = self.v.get(f, 'auto')
            return ({"f": f, "a": dict(a, backend=b,
                                       default_backend=False)},
                    'cblas' if b == 'cblas' else None)
        if "mod" in a:
            m = a["mod"]
            if m == 'default':
                m = self.v.get(SHARED.get((f, a.get("k")), f), 'default')
                a = dict(a, co=None)     # ignored by calls of the default
            return ({"f": f, "a": dict(a, mod=m)},
                    m if m in ('cvxpy', 'picos') else None)
        return op, None


def start_op(plan):
    return {"f": "start_up", "a": {"order": plan["order"]}}


@ops.op('start_up', lambda r: None, tags=('hidden',))
def _(a, env):
    return optional.start(a["order"])


def ops_of(plan):
    out = [start_op(plan)] if plan["interrupts"] else []
    d = Defaults()
    for s in plan["steps"]:
        if s["k"] == 'default':
            d.v[s["f"]] = s["v"]
        elif s["k"] == 'call':
            out.append(d.effective(s["op"])[0])
    return out


def prepare(op):
    """Set up the process in which a reference is made."""
    optional.install(world.ROOT)
    if op["f"] != 'start_up':
        import pydsm                                       # noqa


# ---- execution --------------------------------------------------------------

def execute(plan, refs):
    f = optional.install(world.ROOT)
    run = Run(plan, refs)
    kernel.solo(run.k, lambda t: body(run, plan, f))
    run.info["nontrivial"] = bool(run.k.faults)
    return run.result()


def body(run, plan, finder):
    for c, st in plan["start"].items():
        finder.state[c] = [st["kind"], st["times"]]
    if not start(run, plan, finder):
        return
    d = Defaults()
    first = {}
    lost = 'cblas' not in finder.loaded_real()
    for s in plan["steps"]:
        k = s["k"]
        if k == 'lose':
            finder.state[s["c"]] = [s["kind"], s["times"]]
            run.k.emit('lose', s["c"], s["kind"], s["times"])
        elif k == 'recover':
            finder.state.pop(s["c"], None)
            run.k.emit('recover', s["c"])
        elif k == 'default':
            import pydsm.delsig
            import pydsm.NTFdesign
            if s["f"] == 'simulateDSM':
                pydsm.delsig.simulateDSM.default_options['backend'] = s["v"]
            else:
                getattr(pydsm.NTFdesign, s["f"]).default_options[
                    'modeler'] = s["v"]
            d.v[s["f"]] = s["v"]
            run.k.emit('default', s["f"], s["v"])
        elif not call(run, s, d, finder, lost, first):
            return


def start(run, plan, finder):
    """Import the package, again if that is interrupted."""
    op = start_op(plan)
    for f in plan["interrupts"]+[None]*5:
        specs = [dict(f, do='raise')] if f else []
        trig = triggers(run.ref(op), specs) if f else []
        ctx = kernel.OpCtx('start_up', trig)
        n = len(finder.raised)
        res = run.issue(op, ctx=ctx)
        raised = finder.raised[n:]
        fatal = [e for e in ctx.injected+raised
                 if not isinstance(e, Exception)]
        if res[0] == 'ok':
            if fatal:
                run.violate('interrupted_import_succeeds',
                            fault=repr(fatal[0]), order=plan["order"])
                return False
            return True
        c = chain(res[1])
        if fatal:
            if not any(e in c for e in fatal):
                run.violate('start_up_fails', fault=repr(fatal[0]),
                            got=brief(outcome(res)))
                return False
            finder.state.pop('cblas', None)      # the user tries again
            continue
        if any(isinstance(e, MemoryError) and e in c for e in raised):
            finder.state.pop('cblas', None)
            continue
        run.violate('start_up_fails', order=plan["order"],
                    missing=sorted(finder.state), got=brief(outcome(res)))
        return False
    return False


def call(run, s, d, finder, lost, first):
    op, need = d.effective(s["op"])
    real = s["op"]
    ref = run.ref(op)
    specs = [dict(s["fault"], do='raise')] if s["fault"] else []
    ctx = kernel.OpCtx(op["f"], triggers(ref, specs), budget=budget(ref))
    before = snapshot()
    n = len(finder.raised)
    was = need in finder.loaded
    state = dict((c, v[0]) for c, v in finder.state.items())
    env = ops.Env()
    res = run.issue(real, env, ctx)
    after = snapshot()
    raised = finder.raised[n:]
    o = outcome(res)
    run.state(sorted(state.items()), sorted(finder.loaded), op["f"], need,
              o[0] if o[0] == 'ok' else o[1])
    info = dict(op=op, needs=need, unavailable=state)
    for e in raised:
        comp = [c for c in optional.COMPONENTS if c in str(e)]
        if need is None or comp and need not in comp:
            # an import that the call had no business with: harmless
            # only if nothing can be noticed
            run.k.probe('needless_import')
    df = diff({k: before[k] for k in before if k in after}, after)
    if df:
        run.violate('settings_changed', changed=df, **info)
        return False
    if env.modified():
        run.violate('arguments_modified', args=env.modified(), **info)
        return False
    if ctx.injected:
        if o[0] == 'exc' and any(e in chain(res[1]) for e in ctx.injected):
            return True
        if o[0] == 'ok' and not matches(res, ref, op["f"]):
            return True
        run.violate('interrupt_lost', got=brief(o), **info)
        return False
    down = need is not None and (
        need == 'cblas' and lost or
        need != 'cblas' and not was and raised)
    if not down:
        m = matches(res, ref, op["f"])
        if op["f"] == 'bad_call' and d.v and o[0] == 'exc':
            m = None                      # another way to complain
        if m and not (need == 'cblas' and 'cblas' in state):
            run.violate('unavailable_though_present' if need else
                        'disturbed_by_missing_component',
                        difference=m, **info)
            return False
        return True
    run.info["denied"] = run.info.get("denied", 0)+1
    if need == 'cblas' and 'cblas' not in state and \
            not matches(res, ref, op["f"]):
        return True                       # found after all
    if o[0] == 'exc' and ref["out"][0] == 'exc' and not matches(res, ref,
                                                                  op["f"]):
        return True                       # wrong anyway
    if o[0] == 'ok':
        run.violate('missing_component_not_reported', got=brief(o), **info)
        return False
    c = chain(res[1])
    fatal = [e for e in raised if not isinstance(e, Exception)]
    if fatal and res[1] is not fatal[0]:
        run.violate('interrupt_lost', got=brief(o), **info)
        return False
    if any(e in c for e in raised if not isinstance(e, ImportError)):
        return True
    if isinstance(res[1], (ImportError, RuntimeError, ValueError)) and \
            need in str(res[1]).lower():
        return True
    run.violate('unclear_error', got=brief(o), **info)
    return False


def shrink(plan):
    for g in (lambda: S.lists(plan, ('steps', 'interrupts')),
              lambda: S.lists(plan, ('order',), 1),
              lambda: S.nulls(plan, ('fault', 'times'))):
        for p in g():
            yield p
    for c in list(plan["start"]):
        yield dict(plan, start={k: v for k, v in plan["start"].items()
                                if k != c})
