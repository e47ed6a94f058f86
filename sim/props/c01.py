"""C01: a modulator simulation can be stopped and resumed at any sample."""

import numpy as np

from .. import modulator as M
from .. import shrink as S
from ..run import Run

ID = 'C01'
TIERS = {'quick': (16000, 60.), 'thorough': (10**7, 780.)}
RULE = ('A run plays 1-3 modulator sessions as simulated threads; each '
        'session feeds one random input to one random modulator in segments '
        'that resume from saved states, on changing backends, with segments '
        'lost, interrupted or only partly checkpointed.')
STATES = ('(kind of modulator, order, inputs, quantizers, backend, stored '
          'outputs, layout of input and checkpoint) of accepted segments, '
          'plus crashes by backend')
ASSUME = ['outside the exactly representable modulators, two runs may differ '
          'by rounding; they are compared up to a stated error growth and '
          'up to the first decision closer to a threshold than that']


def plan(r, index, tier):
    ns = r.choice([1, 1, 1, 2, 3])
    kinds = r.choice([('exact',), ('exact', 'real', 'ntf')])
    ses = [M.gen_session(r, kinds, long_ok=ns == 1) for _ in range(ns)]
    sw = M.gen_switches(r, ses, r.choice([0, 2, 6])) if ns > 1 else []
    if ns > 1:
        for s in ses:
            for g in s["segs"]:
                g["via_default"] = False
    M.relatives(r, ses)
    return {"sessions": ses, "switches": sw, "refill": r.random() < .4}


def ops_of(plan):
    return []


def execute(plan, refs):
    run = Run(plan)
    recs = M.run_sessions(run, plan)
    run.k.cur = None
    if not run.viol and not run.k.aborted:
        for sid, (spec, rec) in enumerate(zip(plan["sessions"], recs)):
            judge(run, sid, spec, rec)
    run.info["nontrivial"] = sum(len(r.segs) > 1 for r in recs)
    run.info["segments"] = sum(len(r.segs) for r in recs)
    run.info["samples"] = sum(r.done for r in recs)
    return run.result()


def horizon(m, X, Y, U):
    """Allowed difference at each sample between two runs."""
    N = U.shape[1]
    with np.errstate(all='ignore'):
        big = np.maximum.accumulate(np.maximum(
            1., np.maximum(np.max(np.abs(X), 0), np.maximum(
                np.max(np.abs(Y), 0), np.max(np.abs(U), 0)))))
    if m.kind == 'exact':
        return np.zeros(N), int(np.sum(big < 2.**43))
    t = np.arange(1, N+1.)
    if m.kind == 'real':
        tol = 1e-9*big
    else:
        tol = 1e-12*big*t**min(m.n, 3)*10.**m.n
    return tol, int(np.sum(np.cumsum(tol > 1e-3*big) == 0))


def judge(run, sid, spec, rec):
    m = M.Model(spec["model"])
    U = M.make_input(spec["u"], m)
    N = U.shape[1]
    init = M.initial(spec, m)
    done = rec.done
    # not everything need have been accepted if the last segments were lost
    backend = 'scipy' if m.kind == 'exact' else \
        (rec.backend[0] or 'scipy_blas')
    v, X, xm, Y = M.whole(m, U, init, backend)
    tol, end = horizon(m, X, Y, U)
    end = min(end, done)
    run.info["compared"] = run.info.get("compared", 0)+end
    bad = np.any(rec.v[:, :end] != v[:, :end], axis=0)
    if np.any(bad):
        i = int(np.argmax(bad))
        if np.any(M.near_tie(Y[:, i:i+1], m.nlev, 20*tol[i])):
            run.k.probe('decision_within_rounding')
            end = i
        else:
            run.violate('output_differs', session=sid, sample=i,
                        backend=rec.backend[i], got=rec.v[:, i],
                        uninterrupted=v[:, i])
            return
    for name, got, want in (('quantizer_input', rec.y, Y),
                            ('state', rec.x, X)):
        d = np.max(np.abs(got[:, :end]-want[:, :end]), axis=0) \
            if end else np.zeros(0)
        bad = ~np.isnan(d) & (d > tol[:end])
        if np.any(bad):
            i = int(np.argmax(bad))
            run.violate(name+'_differs', session=sid, sample=i,
                        backend=rec.backend[i], got=got[:, i],
                        uninterrupted=want[:, i])
            return
    full = np.hstack((init.reshape(-1, 1), X))
    for start, n, be, x, _ in rec.segs:
        if x is None or start+n > end:
            continue
        want = np.max(np.abs(full[:, start:start+n+1]), axis=1)
        if np.any(np.abs(x-want) > tol[start+n-1]):
            run.violate('xmax_differs', session=sid, segment_start=start,
                        samples=n, backend=be, got=x, uninterrupted=want)
            return


def shrink(plan):
    for f in (lambda: S.lists(plan, ('sessions',), 1),
              lambda: S.lists(plan, ('switches',)),
              lambda: S.nulls(plan, ('fault', 'keep')),
              lambda: S.lists(plan, ('segs',), 1),
              lambda: S.ints(plan, ('N',)),
              lambda: S.ints(plan, ('len',), 1),
              lambda: S.falses(plan, ('xn', 'xmax', 'y', 'via_default')),
              lambda: S.ints(plan, ('order', 'nu', 'nq')),
              lambda: S.values(plan, 'u', 'array') if False else (),
              lambda: S.values(plan, 'as', 'array'),
              lambda: S.ints(plan, ('spikes',), 0)):
        for p in f():
            # segments keep indexes valid for the switches
            yield p
