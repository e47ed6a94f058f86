"""C03: an NTF modulator shapes quantization noise by exactly that NTF."""

import numpy as np

from .. import modulator as M
from ..run import Run
from .c01 import shrink, ops_of                               # noqa

ID = 'C03'
TIERS = {'quick': (16000, 60.), 'thorough': (10**7, 780.)}
RULE = ('A run plays 1-3 sessions of modulators given by random NTFs, from '
        'the zero state, in segments resumed across crashes and changes of '
        'backend, and compares the recorded output with the input plus the '
        'recorded quantization error filtered by the NTF.')
STATES = ('(order, backend, stored outputs, layout of input and checkpoint) '
          'of accepted segments, plus crashes by backend')
ASSUME = ['the realization chosen for the NTF has rounding errors below '
          '1e-8 of the largest signal in it']


def plan(r, index, tier):
    ns = r.choice([1, 1, 2, 3])
    ses = [M.gen_session(r, ('ntf',), long_ok=ns == 1) for _ in range(ns)]
    for s in ses:
        s["x0"] = r.choice(['zero', 'scalar0'])
        if r.random() < .25:
            s["model"]["order"] = r.choice([7, 8])
        for g in s["segs"]:
            g["y"] = True
            if ns > 1:
                g["via_default"] = False
    sw = M.gen_switches(r, ses, r.choice([0, 2, 6])) if ns > 1 else []
    M.relatives(r, ses)
    return {"sessions": ses, "switches": sw, "refill": r.random() < .4}


def execute(plan, refs):
    run = Run(plan)
    recs = M.run_sessions(run, plan)
    run.k.cur = None
    if not run.viol and not run.k.aborted:
        for sid, (spec, rec) in enumerate(zip(plan["sessions"], recs)):
            judge(run, sid, spec, rec)
    run.info["nontrivial"] = 1
    run.info["segments"] = sum(len(r.segs) for r in recs)
    run.info["samples"] = sum(r.done for r in recs)
    return run.result()


def judge(run, sid, spec, rec):
    from scipy.signal import lfilter
    m = M.Model(spec["model"])
    done = rec.done
    if not done:
        return
    u = M.make_input(spec["u"], m)[0, :done]
    v, y = rec.v[0, :done], rec.y[0, :done]
    if np.any(np.isnan(y)):
        run.violate('quantizer_input_missing', session=sid)
        return
    e = v-y
    # the modulator may be unstable: judge while double precision can tell
    big = np.maximum.accumulate(np.maximum(1., np.maximum(
        np.maximum(np.abs(e), np.abs(y)),
        np.maximum(np.abs(u), np.nan_to_num(
            np.max(np.abs(rec.x[:, :done]), axis=0))))))
    end = int(np.sum(big < 1e13))
    if not end:
        return
    want = u[:end]+lfilter(m.b, m.a, e[:end])
    d = np.abs(v[:end]-want)
    # rounding errors are amplified by NTFs with huge gains (repeated poles)
    imp = lfilter([1.], m.a, np.eye(1, 400)[0])
    amp = np.sum(np.abs(imp))*(np.sum(np.abs(m.a))+np.sum(np.abs(m.b)))
    tol = 1e-8*big[:end]*max(1., 1e-6*amp)
    run.info["samples_checked"] = run.info.get("samples_checked", 0)+end
    if np.any(d > tol):
        i = int(np.argmax(d > tol))
        run.violate('noise_not_shaped', session=sid, sample=i,
                    backend=rec.backend[i], v=v[i], expected=want[i],
                    error=d[i])
