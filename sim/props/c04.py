"""C04: concurrent callers do not disturb each other."""

from .. import history as H
from .. import kernel, ops
from .. import shrink as S
from ..run import Run, diff, snapshot

ID = 'C04'
TIERS = {'quick': (8000, 110.), 'thorough': (10**7, 780.)}
RULE = ('A run has 2-4 simulated threads, each issuing 1-3 random calls, '
        'preempted at seeded lines and byte codes of the package, in user '
        'callbacks and in argument conversions; results, options received by '
        'the numerical routines, arguments and process settings are '
        'compared with those of each call alone.')
STATES = ('(preempted line, operation preempted, operation it is preempted '
          'by) at each switch')
ASSUME = ['third party routines are atomic, but for their calls back into '
          'the package and into user code']


def focused(r, tier):
    """Few calls of one function, densely preempted."""
    f = 'simulateDSM' if r.random() < .08 else r.choice(H.CHEAP+H.CALLBACK)
    a = {"f": f, "a": ops.GEN[f](r)}
    b = r.choice([H.safe_variant, H.safe_variant, H.near])(r, a)
    dense = r.random() < .4
    threads = [[call(r, o, r.choice([0, 1, 2, 4, 8]),
                     r.choice([10, 30, 60, 120]) if dense else 0) for o in th]
               for th in r.choice([
                   [[a], [a]], [[a], [b]], [[a, b], [b]], [[b, a], [a]],
                   [[a, b], [a, b]], [[a, a], [b, a]], [[a], [a], [b]],
                   [[a, b], [b, a], [a]]])]
    return {"threads": threads, "share": r.random() < .3,
            "first": r.randrange(len(threads))}


def call(r, o, ns, dense=0):
    return {"op": o, "trig": [
        {"do": "switch", "pos": round(r.random(), 6),
         "to": r.randint(0, 3)} for _ in range(dense)]+[
        {"do": "switch", "site": round(r.random(), 5),
         "occ": round(r.random(), 4), "to": r.randint(0, 3),
         "tree": r.random() < .5,
         "sub": r.choice([0, 0, 3, 8, 20, r.randint(1, 60)])}
        for _ in range(ns)],
        "cb": {str(r.choice([0, 1, 2, 5, 20])): r.randint(0, 3)}
        if r.random() < .4 else None,
        "arr": r.randint(0, 3) if r.random() < .4 else None,
        "gc": round(r.random(), 4) if r.random() < .05 else None}


def plan(r, index, tier):
    if r.random() < .35:
        return focused(r, tier)
    cls = r.choices(['cheap', 'callback', 'medium', 'solver', 'tdr'],
                    [34, 30, 8, 20, 8])[0]
    nt = r.choice([2, 2, 2, 3, 4]) if cls in ('cheap', 'callback') else \
        r.choice([2, 2, 2, 3])
    same = r.random() < .6
    tag = 's%d' % r.randrange(1)
    base = H.pick(r, cls, tag, tier)
    threads = []
    for t in range(nt):
        th = []
        for _ in range(r.choice([1, 1, 2, 3]) if cls in ('cheap', 'callback')
                       else 1):
            if same and cls in ('cheap', 'callback'):
                o = {"f": base["f"], "a": ops.GEN[base["f"]](r)}
            elif same:
                o = H.pick(r, cls, tag, tier)
            else:
                o = H.pick(r, r.choice([cls, 'cheap', 'callback']), tag,
                           tier)
            if t and r.random() < (.1 if cls in ('cheap', 'callback')
                                   else .3):
                o = base
            th.append(call(r, o, r.choice([0, 1, 1, 2, 3, 6])))
        threads.append(th)
    return {"threads": threads, "share": r.random() < .4,
            "first": r.randrange(nt)}


def ops_of(plan):
    return [c["op"] for t in plan["threads"] for c in t]


def execute(plan, refs):
    run = Run(plan, refs)
    k = run.k
    shared = {} if plan["share"] else None
    before = snapshot()
    running = {}

    def at_switch(me, nxt, where):
        run.state(where, running.get(me.tid), running.get(nxt.tid))
    k.at_switch = at_switch

    def body(t, calls):
        for ci, c in enumerate(calls):
            one(t, ci, c)

    def one(t, ci, c):
        op = c["op"]
        ref = run.ref(op)
        running[t.tid] = op["f"]
        specs = list(c["trig"])
        if c["gc"] is not None:
            specs.append({"do": "gc", "at": 1+int(c["gc"]*ref["n"])})
        ctx = H.context(run, op, ref, specs)

        def callback(f, a, kw):
            n = ctx.cb
            ctx.cb += 1
            to = (c["cb"] or {}).get(str(n))
            if to is not None:
                k.fault('switch_in_callback')
                k.switch(to, 'callback of '+op["f"])
            return f(*a, **kw)

        def convert():
            k.fault('switch_in_argument_conversion')
            k.switch(c["arr"], 'argument of '+op["f"])

        env = ops.Env(
            callback=callback if 'callback' in ops.TAGS[op["f"]] else None,
            arraylike=None if c["arr"] is None else
            (lambda x: H.ArrayLike(x, convert)), shared=shared)
        res = run.issue(op, env, ctx)
        H.compare(run, op, res, ref, 'result_disturbed', thread=t.tid,
                  call=ci)
        H.compare_seams(run, op, ctx, ref, 'options_disturbed',
                        thread=t.tid, call=ci)
        why = env.modified()
        if why and not ref["mod"]:
            run.violate('argument_modified', op=op, thread=t.tid, what=why)

    k.run_threads([lambda t, calls=calls: body(t, calls)
                   for calls in plan["threads"]], plan["first"])
    k.faults['preemption'] = k.switches
    if not k.aborted:
        H.check_functions(run)
        for d in diff(before, snapshot()):
            run.violate('settings_disturbed', what=d)
    run.info["threads"] = len(plan["threads"])
    return run.result()


def shrink(plan):
    for f in (lambda: S.lists(plan, ('threads',), 2),
              lambda: drop_calls(plan),
              lambda: S.lists(plan, ('trig',)),
              lambda: S.nulls(plan, ('cb', 'arr', 'gc')),
              lambda: S.falses(plan, ('share',)),
              lambda: S.values(plan, 'first', 0),
              lambda: S.values(plan, 'to', 0),
              lambda: S.ints(plan, ('sub',), 0),
              lambda: S.values(plan, 'occ', 0.)):
        for p in f():
            yield p


def drop_calls(plan):
    for i, t in enumerate(plan["threads"]):
        for j in range(len(t)):
            if len(t) > 1:
                yield S._with(plan, ('threads', i), t[:j]+t[j+1:])
