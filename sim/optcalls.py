"""Calls that carry options, and the model of the options in force.

The model holds one dictionary of defaults per function, as a user reading
the documentation would: a call uses the defaults of its own function at the
time it is made, overlaid key by key by the options given in the call.
"""

import copy

import numpy as np

from . import ops

# function -> (module, attribute of the owner of the defaults)
FUNCS = {
    'idtft': 'pydsm.ft.idtft',
    'idtft_hermitian': 'pydsm.ft.idtft_hermitian',
    'q0_weighting': 'pydsm.NTFdesign.weighting.q0_weighting',
    'q0_from_noise_weighting':
        'pydsm.NTFdesign.weighting.q0_from_noise_weighting',
    'noise_gain': 'pydsm.NTFdesign.quantization_noise_gain',
    'weighted_noise_gain':
        'pydsm.NTFdesign.weighting.quantization_weighted_noise_gain',
    'filter_noise_gain':
        'pydsm.NTFdesign.filter_based.quantization_noise_gain',
    'q0_from_filter': 'pydsm.NTFdesign.filter_based.q0_from_filter',
    'from_filter': 'pydsm.NTFdesign.filter_based.synthesize_ntf_from_filter',
    'from_q0': 'pydsm.NTFdesign.weighting.ntf_fir_from_q0',
    'synth_from_q0': 'pydsm.NTFdesign.weighting.synthesize_ntf_from_q0',
    'weighting': 'pydsm.NTFdesign.ntf_fir_weighting',
    'hybrid': 'pydsm.NTFdesign.ntf_hybrid_weighting',
    'audio': 'pydsm.NTFdesign.ntf_fir_audio_weighting',
    'minmax': 'pydsm.NTFdesign.ntf_fir_minmax',
    'synth_minmax': 'pydsm.NTFdesign.minmax.synthesize_ntf_minmax',
    'clans': 'pydsm.delsig.clans',
    'spread': 'pydsm.NTFdesign.helpers.spread_fir_uc_zeros',
    'synthesizeNTF': 'pydsm.delsig.synthesizeNTF',
    'simulateDSM': 'pydsm.delsig.simulateDSM'}

OWNER = dict((k, k) for k in FUNCS)
OWNER.update(q0_from_noise_weighting='q0_weighting',
             weighted_noise_gain='noise_gain', synth_from_q0='from_q0',
             synth_minmax='minmax')
OWNERS = sorted(set(OWNER.values()))

QUAD = ['idtft', 'idtft_hermitian', 'q0_weighting', 'noise_gain',
        'q0_from_noise_weighting', 'weighted_noise_gain',
        'filter_noise_gain', 'q0_from_filter']
SOLVER = ['from_q0', 'synth_from_q0', 'weighting', 'hybrid', 'audio',
          'minmax', 'synth_minmax', 'from_filter']
WITH_QUAD = QUAD + ['weighting', 'hybrid', 'audio', 'from_filter']
OPTIM = ['clans', 'spread']
SWITCH = ['synthesizeNTF', 'simulateDSM']
CLASSES = {'quad': QUAD, 'solver': SOLVER, 'optim': OPTIM,
           'switch': SWITCH}


def func(name):
    import importlib
    m, a = FUNCS[name].rsplit('.', 1)
    return getattr(importlib.import_module(m), a)


def owner(name):
    return func(OWNER[name])


def shipped():
    return dict((o, copy.deepcopy(func(o).default_options)) for o in OWNERS)


# ---- values -------------------------------------------------------------

VALUES = {
    'quad_opts': {'epsabs': [1e-9, 1e-7, 1e-13], 'epsrel': [1e-6, 1e-8],
                  'limit': [50, 80, 120], 'points': [None, [.2], [.1, .3]]},
    'cvxopt_opts': {'maxiters': [60, 80, 90], 'abstol': [1e-7, 1e-8, 3e-8],
                    'reltol': [1e-6, 1e-7, 3e-7],
                    'feastol': [1e-6, 1e-7, 3e-7]},
    'scs_opts': {'eps': [1e-6, 1e-7], 'max_iters': [20000, 50000],
                 'alpha': [1.5, 1.6], 'normalize': [True, False]},
    'cvxpy_opts': {'override_kktsolver': [True, False],
                   'solver': ['cvxopt', 'cvxopt', 'scs']},
    'slsqp_opts': {'maxiter': [3, 5, 8], 'ftol': [1e-6, 1e-5, 1e-4],
                   'eps': [1e-8, 2e-8, 1e-7]},
    'L_BFGS_B_opts': {'maxiter': [5, 10, 15], 'maxcor': [5, 8],
                      'ftol': [1e-9, 1e-7], 'gtol': [1e-5, 1e-4],
                      'maxfun': [50, 100], 'eps': [1e-8, 1e-7]},
    'show_progress': [True, False, False], 'fix_pos': [True, False],
    'modeler': ['cvxpy_old', 'cvxpy', 'picos'],
    'use_optimizer': [True, False],
    'backend': ['auto', 'scipy', 'scipy_blas', 'cblas']}

# values used by the routines when an option is not given
THIRD = {
    'quad_opts': {'epsabs': 1.49e-8, 'epsrel': 1.49e-8, 'limit': 50,
                  'points': None},
    'cvxpy_opts': {'override_kktsolver': True},
    'slsqp_opts': {'maxiter': 100, 'ftol': 1e-6,
                   'eps': 1.4901161193847656e-08},
    'L_BFGS_B_opts': {'maxiter': 15000, 'maxcor': 10,
                      'ftol': 2.2204460492503131e-09, 'gtol': 1e-5,
                      'maxfun': 15000, 'eps': 1e-8}}

# functions that do not pass their options through others
DIRECT = ['idtft', 'idtft_hermitian', 'noise_gain', 'from_q0', 'minmax',
          'hybrid', 'clans', 'spread']

NAMES = {'slsqp': 'slsqp_opts', 'l-bfgs-b': 'L_BFGS_B_opts'}


def value(r, key, sub=None):
    return r.choice(VALUES[key] if sub is None else VALUES[key][sub])


def accepted(fn, eff):
    """The options that have a meaning for this call."""
    if fn in QUAD:
        return ['quad_opts']
    if fn == 'clans':
        return ['show_progress', 'slsqp_opts']
    if fn == 'spread':
        return ['L_BFGS_B_opts']
    if fn == 'synthesizeNTF':
        return ['use_optimizer']
    if fn == 'simulateDSM':
        return ['backend']
    out = ['show_progress', 'modeler']
    if 'minmax' not in fn:
        out.append('fix_pos')
    if fn in WITH_QUAD:
        out.append('quad_opts')
    if eff["modeler"] == 'cvxpy':
        out.append('cvxpy_opts')
        out.append('scs_opts' if eff["cvxpy_opts"]["solver"] == 'scs'
                   else 'cvxopt_opts')
    else:
        out.append('cvxopt_opts')
    return out


def overlay(defaults, explicit):
    eff = copy.deepcopy(defaults)
    for k, v in explicit.items():
        if isinstance(v, dict):
            eff.setdefault(k, {})
            eff[k] = dict(eff[k])
            eff[k].update(v)
        else:
            eff[k] = v
    return eff


# ---- calls --------------------------------------------------------------

def gen_args(r, fn):
    w = ops.gen_weight(r, False)
    if fn in ('idtft', 'idtft_hermitian'):
        return {"w": w, "n": r.randint(1, 3)}
    if fn in ('q0_weighting', 'q0_from_noise_weighting', 'q0_from_filter'):
        return {"w": ops.gen_weight(r), "P": r.randint(1, 3)}
    if fn in ('noise_gain', 'weighted_noise_gain', 'filter_noise_gain'):
        return {"h": ops.gen_ntf(r), "w": ops.gen_weight(r)}
    if fn in ('from_q0', 'synth_from_q0'):
        return {"q": r.choice([[1., -.5, .2], [1., .4, -.1, .05],
                               [1., .95, .1]]), "H": r.choice([1.5, 2.])}
    if fn in ('weighting', 'from_filter'):
        return {"n": r.choice([2, 2, 3]), "w": ops.gen_weight(r),
                "H": r.choice([1.5, 2.])}
    if fn == 'hybrid':
        return {"n": r.choice([2, 2, 3]), "w": ops.gen_weight(r),
                "H": r.choice([1.5, 2.]), "p": r.choice([[], [.4]])}
    if fn == 'audio':
        return {"n": 2, "osr": r.choice([16, 32]), "w": r.choice('abcdf'),
                "att": r.choice([20, 30])}
    if fn in ('minmax', 'synth_minmax'):
        return {"n": r.choice([2, 3]), "osr": r.choice([8, 16]),
                "H": r.choice([1.5, 2.])}
    if fn == 'clans':
        return {"n": r.choice([2, 3]), "osr": r.choice([16, 32]), "nq": 5}
    if fn == 'spread':
        return {"n": r.choice([2, 3, 4]), "osr": r.choice([8, 16])}
    if fn == 'synthesizeNTF':
        return {"n": r.randint(2, 4), "osr": r.choice([16, 32, 64]),
                "H": r.choice([1.3, 1.5, 2.]), "opt": r.choice([0, 1, 3])}
    return {"m": ops.gen_ntf(r, r.randint(1, 3)), "s": r.randint(0, 99)}


def call(fn, a, opts, env):
    f = func(fn)

    def wt(s):
        return ops.weight(s, env)
    if fn in ('idtft', 'idtft_hermitian'):
        return ops.canon(f(wt(a["w"]), np.arange(a["n"]), **opts))
    if fn in ('q0_weighting', 'q0_from_noise_weighting'):
        return ops.canon(f(a["P"], wt(a["w"]), **opts))
    if fn == 'q0_from_filter':
        return ops.canon(f(a["P"], wt(a["w"]), kind(a["w"]), **opts))
    if fn in ('noise_gain', 'weighted_noise_gain'):
        return ops.canon(f(env.reg(ops.ntf_zpk(a["h"])), wt(a["w"]), **opts))
    if fn == 'filter_noise_gain':
        return ops.canon(f(env.reg(ops.ntf_zpk(a["h"])), wt(a["w"]),
                           kind(a["w"]), **opts))
    if fn in ('from_q0', 'synth_from_q0'):
        return ops.ntf_canon(f(env.reg(np.array(a["q"])), a["H"], **opts))
    if fn == 'weighting':
        return ops.ntf_canon(f(a["n"], wt(a["w"]), a["H"], **opts))
    if fn == 'from_filter':
        return ops.ntf_canon(f(a["n"], wt(a["w"]), kind(a["w"]), a["H"],
                               **opts))
    if fn == 'hybrid':
        return ops.ntf_canon(f(a["n"], wt(a["w"]), a["H"],
                               env.reg(list(a["p"])), **opts))
    if fn == 'audio':
        from pydsm import audio_weightings as m
        return ops.ntf_canon(f(a["n"], a["osr"], env.cb(
            getattr(m, a["w"]+'_weighting')), max_attn=a["att"], **opts))
    if fn in ('minmax', 'synth_minmax'):
        return ops.ntf_canon(f(a["n"], a["osr"], a["H"], **opts))
    if fn == 'clans':
        return ops.ntf_canon(f(a["n"], a["osr"], a["nq"], .95, 0, **opts))
    if fn == 'spread':
        from pydsm.delsig import evalTF
        x = np.exp(1j*np.pi*np.linspace(.01, 1./a["osr"], 8))

        def cf(ntf):
            return float(np.mean(np.abs(evalTF(ntf, x))**2))+1e-9
        return ops.canon(np.poly(f(a["n"], a["osr"], env.cb(cf), **opts)))
    if fn == 'synthesizeNTF':
        return ops.ntf_canon(f(a["n"], a["osr"], a["opt"], a["H"], 0.,
                               **opts))
    u = ops.signal({"s": a["s"], "N": 17, "amp": .4})
    return ops.canon(f(env.arr(u), env.reg(ops.ntf_zpk(a["m"])), 2, 0,
                       True, True, True, **opts))


def kind(w):
    return {'zpk': 'zpk', 'ba': 'ba'}.get(w["k"], 'mag')


def _gen(r):
    fn = r.choice(sorted(FUNCS))
    return {"fn": fn, "args": gen_args(r, fn), "opts": {}}


@ops.op('opt_call', _gen, tol=1e-4, tags=('options', 'callback', 'hidden'))
def _(a, env):
    opts = dict((k, env.reg(dict(v)) if isinstance(v, dict) else v)
                for k, v in a["opts"].items())
    return call(a["fn"], a["args"], opts, env)
