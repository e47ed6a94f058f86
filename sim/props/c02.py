"""C02: every simulated sample is a legal step of the specified modulator."""

import numpy as np

from .. import modulator as M
from ..run import Run
from .c01 import shrink, ops_of                               # noqa

ID = 'C02'
TIERS = {'quick': (16000, 60.), 'thorough': (10**7, 780.)}
RULE = ('A run plays 1-3 modulator sessions (random modulators, inputs with '
        'overload bursts, memory layouts, stored outputs and backends; '
        'segments, crashes and resumptions) and checks each sample of the '
        'recorded history against the modulator equations.')
STATES = ('(kind of modulator, order, inputs, quantizers, backend, stored '
          'outputs, layout of input and checkpoint) of accepted segments')
ASSUME = ['rounding of one step is bounded by 1e-11 of the sum of the '
          'magnitudes of its terms; decisions closer than that to a '
          'threshold may go either way']


def plan(r, index, tier):
    ns = r.choice([1, 1, 2, 3])
    kinds = r.choice([('exact', 'real', 'real'), ('real',),
                      ('exact', 'real', 'ntf')])
    ses = [M.gen_session(r, kinds, long_ok=ns == 1, max_segs=3)
           for _ in range(ns)]
    for s in ses:
        for g in s["segs"]:
            if r.random() < .75:
                g["xn"] = g["y"] = True
            if ns > 1:
                g["via_default"] = False
    sw = M.gen_switches(r, ses, r.choice([0, 2, 6])) if ns > 1 else []
    M.relatives(r, ses)
    return {"sessions": ses, "switches": sw, "refill": r.random() < .4}


def execute(plan, refs):
    run = Run(plan)
    recs = M.run_sessions(run, plan)
    run.k.cur = None
    if not run.viol and not run.k.aborted:
        for sid, (spec, rec) in enumerate(zip(plan["sessions"], recs)):
            judge(run, sid, spec, rec)
    run.info["nontrivial"] = 1
    run.info["segments"] = sum(len(r.segs) for r in recs)
    run.info["samples"] = sum(r.done for r in recs)
    return run.result()


def judge(run, sid, spec, rec):
    m = M.Model(spec["model"])
    U = M.make_input(spec["u"], m)
    done = rec.done
    if not done:
        return
    init = M.initial(spec, m)
    v, y = rec.v[:, :done], rec.y[:, :done]
    X0 = np.hstack((init.reshape(-1, 1), rec.x[:, :done-1]))
    X1 = rec.x[:, :done]
    U = U[:, :done]

    def bad(kind, mask, **kw):
        if np.any(mask):
            i = int(np.argmax(np.any(mask, axis=0)))
            run.violate(kind, session=sid, sample=i, backend=rec.backend[i],
                        v=v[:, i], y=y[:, i], **{
                            k: f(i) for k, f in kw.items()})
            return True
        return False

    lv = m.nlev.reshape(-1, 1)
    # the output is one of the levels
    if bad('illegal_output', (np.abs(v) > lv-1) | ((v+lv-1) % 2 != 0)):
        return
    with np.errstate(all='ignore'):
        finite = np.abs(y) < 1e14
        if m.kind == 'ntf':
            scale = 1.+np.abs(y)
        else:
            scale = np.abs(m.C).dot(np.abs(X0))+np.abs(m.D).dot(np.abs(U))
            yy = m.C.dot(X0)+m.D.dot(U)
            tol = 1e-11*scale+1e-300 if m.kind != 'exact' else \
                np.where(scale < 2.**43, 0., np.inf)
            if bad('illegal_quantizer_input', np.abs(y-yy) > tol,
                   expected=lambda i: yy[:, i]):
                return
            # outputs are judged even where y is not stored
            q = M.quantize(yy, m.nlev)
            tie = M.near_tie(yy, m.nlev, np.where(np.isfinite(tol), tol, 0)
                             + 1e-300 if m.kind != 'exact' else 0.)
            if m.kind == 'exact':
                tie = np.zeros_like(yy, dtype=bool) | ~np.isfinite(tol)
            if bad('illegal_decision', (v != q) & ~tie & ~np.isnan(yy)
                   & (np.abs(yy) < 1e14), expected=lambda i: q[:, i]):
                return
            xx = m.A.dot(X0)+m.B.dot(np.vstack((U, v)))
            scale = np.abs(m.A).dot(np.abs(X0))+np.abs(m.B).dot(
                np.abs(np.vstack((U, v))))
            tol = 1e-11*scale+1e-300 if m.kind != 'exact' else \
                np.where(scale < 2.**43, 0., np.inf)
            if bad('illegal_state', np.abs(X1-xx) > tol,
                   expected=lambda i: xx[:, i], got=lambda i: X1[:, i]):
                return
        # stored quantizer input and output fit each other exactly
        q = M.quantize(y, m.nlev)
        if bad('illegal_decision', (v != q) & ~np.isnan(y) & finite,
               expected=lambda i: q[:, i]):
            return
    for start, n, be, x, want in rec.segs:
        if x is None or want is None:
            continue
        if np.any(x != want):
            run.violate('illegal_maximum', session=sid, segment_start=start,
                        samples=n, backend=be, got=x, visited=want)
            return
    run.info["steps_checked"] = run.info.get("steps_checked", 0)+int(
        np.sum(~np.isnan(X1[0]+X0[0])))
