"""Catalogue of operations on the public API, generated and JSON-serialisable.

Each operation is {"f": name, "a": {...}}.  ``run(op, env)`` issues it and
returns a canonical value (nested tuples of arrays and scalars).
"""

import copy
import math

import numpy as np


# ---- canonical values --------------------------------------------------

TAP = []                                 # at most one list of raw results


def raw(x):
    """Every object returned by the package passes through here."""
    for t in TAP:
        t.append(x)
    return x


def canon(x):
    return _canon(raw(x))


def _canon(x):
    if isinstance(x, (tuple, list)):
        return tuple(_canon(i) for i in x)
    if isinstance(x, np.ndarray):
        return np.array(x, subok=False)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return tuple((k, _canon(x[k])) for k in sorted(x))
    return x


def digest(x, h=None):
    import hashlib
    top = h is None
    if top:
        h = hashlib.blake2b(digest_size=8)
    if isinstance(x, tuple):
        h.update(b'(')
        for i in x:
            digest(i, h)
        h.update(b')')
    elif isinstance(x, np.ndarray):
        h.update(str((x.shape, x.dtype.str)).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    else:
        h.update(repr(x).encode())
    return h.hexdigest() if top else None


def same(a, b, rtol=1e-9, atol=1e-12):
    """Are two canonical values equal up to rounding? None or a reason."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            return 'type %s vs %s' % (type(a).__name__, type(b).__name__)
        if len(a) != len(b):
            return 'length %d vs %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, rtol, atol)
            if r:
                return '[%d] %s' % (i, r)
        return None
    if isinstance(a, (str, bool, type(None))) or \
            isinstance(b, (str, bool, type(None))):
        return None if a == b else '%r vs %r' % (a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return 'shape %s vs %s' % (x.shape, y.shape)
    if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
        return None if np.array_equal(x, y) else 'objects differ'
    if np.array_equal(x, y):
        return None
    with np.errstate(all='ignore'):
        scale = np.max(np.abs(y[np.isfinite(y)])) if np.any(np.isfinite(y)) \
            else 0.
        ok = np.isclose(x, y, rtol=rtol, atol=atol+rtol*scale,
                        equal_nan=True)
    if np.all(ok):
        return None
    j = np.argmin(ok.ravel())
    return 'value %r vs %r' % (x.ravel()[j], y.ravel()[j])


# ---- environment of one operation --------------------------------------

class Env(object):
    """Gives user callbacks and arguments to the operations.

    All the mutable arguments pass through here, so that they can be shared
    among callers and compared with what they were before the call.
    """

    def __init__(self, callback=None, arraylike=None, shared=None,
                 form=None, owner=None):
        self._owner = owner
        self._callback = callback
        self._form = form
        self._arraylike = arraylike
        self._shared = shared
        self.given = []                  # (object, pristine copy)
        self.functions = []              # (function, arguments, values)

    def cb(self, f):
        hook = self._callback
        if hook is None:
            return f

        def w(*a, **k):
            return hook(f, a, k)
        return w

    def reg(self, x):
        """A mutable argument (array, list, dictionary or tuple of them)."""
        if self._form is not None:
            x = self._form(x)
        if self._shared is not None:
            x = self._shared.setdefault(
                (type(x).__name__, digest(_canon(x))), x)
        self.given.append((x, like(x, copy.deepcopy(x))))
        return x

    def own(self, x):
        """Something that was returned, before the end of the operation."""
        raw(x)
        if self._owner is not None:
            self._owner(x)

    def later(self, f, points):
        """Evaluate a function that was returned, and keep it."""
        v = [_canon(f(p)) for p in points]
        self.functions.append((f, points, v))
        return tuple(v)

    def arr(self, x):
        """An argument array, maybe as a lazy array-like object."""
        x = self.reg(x)
        if self._arraylike is None:
            return x
        return self._arraylike(x)

    def modified(self):
        """Were the arguments modified? None or a description."""
        for x, y in self.given:
            r = exactly(x, y)
            if r:
                return 'argument %s modified: %s' % (type(x).__name__, r)


def like(x, y):
    """Give the copies y of arrays x the same flags."""
    if isinstance(x, np.ndarray):
        y.flags.writeable = x.flags.writeable
    elif isinstance(x, (tuple, list)):
        for a, b in zip(x, y):
            like(a, b)
    return y


def exactly(x, y):
    """Bitwise comparison, None or the reason why they differ."""
    if type(x) is not type(y):
        return 'type %s vs %s' % (type(x).__name__, type(y).__name__)
    if isinstance(x, dict):
        if list(x) != list(y):
            return 'keys %s vs %s' % (list(x), list(y))
        for k in x:
            r = exactly(x[k], y[k])
            if r:
                return '[%r] %s' % (k, r)
        return None
    if isinstance(x, (tuple, list)):
        if len(x) != len(y):
            return 'length %d vs %d' % (len(x), len(y))
        for i, (a, b) in enumerate(zip(x, y)):
            r = exactly(a, b)
            if r:
                return '[%d] %s' % (i, r)
        return None
    if isinstance(x, np.ndarray):
        if x.shape != y.shape or x.dtype != y.dtype:
            return 'shape or type'
        if x.flags.writeable != y.flags.writeable and x.flags.owndata \
                and y.flags.owndata:
            return 'writeable flag'
        if x.tobytes() != y.tobytes():
            return 'values'
        return None
    if callable(x):
        return None
    try:
        if x == y or (x != x and y != y):
            return None
    except Exception:
        return None
    return '%r vs %r' % (x, y)


# ---- pieces ------------------------------------------------------------

def weight(spec, env=None):
    """A weighting function or filter out of its specification."""
    k = spec["k"]
    if k == 'cos':
        c = spec["c"]
        f = (lambda f: c[0] + sum(
            ci*math.cos(2*math.pi*(i+1)*f) for i, ci in enumerate(c[1:])))
    elif k == 'exp':
        a = spec["a"]
        f = lambda f: math.exp(-a*f) + 1e-3
    elif k == 'ratio':
        a = spec["a"]
        f = lambda f: 1./(1.+(a*f)**2)
    elif k == 'step':
        a = spec["a"]
        f = lambda f: 1. if math.sin(a*abs(f)) > 0 else .1
    elif k == 'zpk':
        r, th, p = spec["r"], spec["th"], spec["p"]
        z = np.array([r*np.exp(1j*th), r*np.exp(-1j*th)])
        t = (z, np.array([p]), 1.)
        return env.reg(t) if env is not None else t
    elif k == 'ba':
        t = (np.array(spec["b"]), np.array(spec["a"]))
        return env.reg(t) if env is not None else t
    else:
        raise KeyError(k)
    return env.cb(f) if env is not None else f


def gen_weight(r, filters=True, hard=False):
    k = r.choice(['cos', 'exp', 'ratio', 'zpk', 'ba'] if filters else
                 ['cos', 'exp', 'ratio'])
    if hard and r.random() < .1:
        return {"k": 'step', "a": r.choice([11., 37., 150.])}
    if k == 'cos':
        return {"k": k, "c": [1.5] + [r.choice([-.5, -.3, .1, .2, .45])
                                      for _ in range(r.randint(1, 2))]}
    if k in ('exp', 'ratio'):
        return {"k": k, "a": r.choice([2., 5., 9., 14.])}
    if k == 'zpk':
        return {"k": k, "r": r.choice([.3, .6, .9]),
                "th": r.choice([.4, 1.1, 2.3]), "p": r.choice([0., .3, -.5])}
    return {"k": k, "b": [1., r.choice([-.5, .2, .7])],
            "a": [1., r.choice([-.4, .1, .6])]}


def gen_ntf(r, order=None):
    """zpk specification of a monic NTF with poles inside the circle."""
    n = order or r.randint(1, 5)
    z, p = [], []
    if n % 2:
        z.append([1., 0.])
        p.append([r.choice([.2, .4, .6, .7]), 0.])
    for i in range(n//2):
        th = r.choice([0.02, .05, .1, .3])*(i+1)
        z.append([1., th])
        rho = r.choice([.4, .6, .7, .8])
        p.append([rho, r.choice([.1, .3, .5])*(i+1)])
    return {"z": z, "p": p, "odd": n % 2}


def ntf_zpk(spec):
    def roots(x):
        out = []
        for j, (rho, th) in enumerate(x):
            if spec["odd"] and j == 0:
                out.append(rho+0j)
            else:
                out += [rho*np.exp(1j*th), rho*np.exp(-1j*th)]
        return np.array(out)
    return (roots(spec["z"]), roots(spec["p"]), 1.)


def gen_abcd(r, nu=None, nq=None, order=None):
    n = order or r.randint(1, 5)
    nu = nu or r.choice([1, 1, 1, 2, 3])
    nq = nq or r.choice([1, 1, 1, 2])
    return {"n": n, "nu": nu, "nq": nq, "s": r.randint(0, 10**6)}


def abcd(spec):
    """Random but tame ABCD matrix."""
    g = np.random.Generator(np.random.PCG64(spec["s"]))
    n, nu, nq = spec["n"], spec["nu"], spec["nq"]
    A = g.uniform(-1, 1, (n, n))
    A *= .9/max(1., np.max(np.abs(np.linalg.eigvals(A))))
    B = g.uniform(-1, 1, (n, nu+nq))
    C = g.uniform(-1, 1, (nq, n))
    D = g.uniform(-.5, .5, (nq, nu))
    return np.vstack((np.hstack((A, B)),
                      np.hstack((C, D, np.zeros((nq, nq))))))


def signal(spec, nu=1):
    g = np.random.Generator(np.random.PCG64(spec["s"]))
    u = g.uniform(-1, 1, (nu, spec["N"]))*spec.get("amp", .5)
    return u[0] if nu == 1 else u


def ntf_canon(t):
    """NTFs are compared through coefficients (roots may be ill defined)."""
    z, p, k = raw(t)
    return (_canon(np.poly(np.asarray(z))), _canon(np.poly(np.asarray(p))),
            _canon(k), len(z), len(p))


OPS = {}
GEN = {}
TOL = {}
TAGS = {}


def op(name, gen, tol=1e-9, tags=()):
    def d(f):
        OPS[name] = f
        GEN[name] = gen
        if 'solver' in tags or name == 'clans':
            # some calls show their progress
            GEN[name] = lambda r: dict(gen(r), sp=r.random() < .25)
        TOL[name] = tol
        TAGS[name] = frozenset(tags)
        return f
    return d


def run(o, env=None):
    return OPS[o["f"]](o["a"], env or Env())


def gen(r, names):
    n = r.choice(names)
    return {"f": n, "a": GEN[n](r)}


def names(*tags, **kw):
    no = kw.get('no', ())
    return [n for n in sorted(OPS)
            if all(t in TAGS[n] for t in tags)
            and not any(t in TAGS[n] for t in no)]


# ---- modulator simulation ----------------------------------------------

def _g_sim(r):
    b = r.choice(['scipy', 'scipy_blas', 'cblas', 'auto'])
    form = r.choice(['ntf', 'abcd'])
    m = gen_ntf(r) if form == 'ntf' else gen_abcd(r)
    nq = m.get("nq", 1)
    return {"backend": b, "form": form, "m": m,
            "nlev": [r.choice([2, 3, 4, 5, 9]) for _ in range(nq)],
            "u": {"s": r.randint(0, 999), "N": r.choice([1, 7, 20, 33]),
                  "amp": r.choice([.3, .6, 1.5])},
            "xn": r.random() < .5, "xmax": r.random() < .5,
            "y": r.random() < .5,
            "x0": r.random() < .5, "default_backend": r.random() < .3}


@op('simulateDSM', _g_sim, tags=('cheap', 'sim'))
def _(a, env):
    from pydsm.delsig import simulateDSM
    if a["form"] == 'ntf':
        arg2 = env.reg(ntf_zpk(a["m"]))
        nu, n = 1, len(arg2[0])
    else:
        arg2 = env.reg(abcd(a["m"]))
        nu, n = a["m"]["nu"], a["m"]["n"]
    u = signal(a["u"], nu)
    x0 = 0.1*np.arange(1, n+1) if a["x0"] else 0
    nlev = env.reg(list(a["nlev"])) if len(a["nlev"]) > 1 \
        else a["nlev"][0]
    kw = {} if a.get("default_backend") else {"backend": a["backend"]}
    return canon(simulateDSM(env.arr(u), arg2, nlev,
                             env.arr(x0) if a["x0"] else 0,
                             a["xn"], a["xmax"], a["y"], **kw))


# ---- transfer functions and simple tools -------------------------------

@op('evalTF', lambda r: {"h": gen_ntf(r), "n": r.choice([1, 5]),
                         "r": r.choice([1., 1., .5, 2.])},
    tags=('cheap',))
def _(a, env):
    from pydsm.delsig import evalTF
    h = env.reg(ntf_zpk(a["h"]))
    x = a["r"]*np.exp(1j*np.linspace(.1, 3, a["n"]))
    return canon(evalTF(h, env.reg(x)))


@op('rmsGain', lambda r: {"h": gen_ntf(r), "g": r.choice([0, 0, .01]),
                          "f": r.choice([.02, .1, .3]),
                          "N": r.choice([None, None, 10, 51])},
    tags=('cheap',))
def _(a, env):
    from pydsm.delsig import rmsGain
    kw = {} if a["N"] is None else {"N": a["N"]}
    return canon(rmsGain(env.reg(ntf_zpk(a["h"])), a["g"], a["f"], **kw))


def _gslow(r):
    """A transfer function that may have a long impulse response."""
    h = gen_ntf(r)
    if r.random() < .4:
        h = {"odd": 1, "z": [[r.choice([1., .5]), 0.]], "p": [
            [r.choice([.95, .99, .999, .9995]), 0.]]}
    return {"h": h, "form": r.choice(['zpk', 'zpk', 'ba', 'ba']),
            "db": r.choice([40, 80])}


def _form(a, env, zero=False):
    z, p, k = ntf_zpk(a["h"])
    if zero:
        p = p*0
    if a["form"] == 'ba':
        return env.reg((np.poly(z).real*k, np.poly(p).real))
    return env.reg((z, p, k))


@op('impulse_response', lambda r: dict(_gslow(r), m=r.choice(
    [None, None, 10])), tags=('cheap',))
def _(a, env):
    from pydsm.ir import impulse_response
    return canon(impulse_response(_form(a, env), a["m"], a["db"]))


@op('guess_ir_length', lambda r: dict(_gslow(r), zero=r.random() < .3),
    tags=('cheap',))
def _(a, env):
    from pydsm.ir import guess_ir_length
    return canon(guess_ir_length(_form(a, env, a["zero"]), a["db"]))


@op('iso226', lambda r: {"w": r.choice(
    ['f', 'a', 'u', 't', 'p', 'n', 'c', 'i']), "L": r.choice([10, 40, 80]),
    "h": r.random() < .4, "k": r.choice([3, 3, 1, 2])}, tags=('cheap',))
def _(a, env):
    from pydsm import iso226 as m
    w, h = a["w"], a["h"]
    if w in 'faut':
        f = {'f': m.tabled_f, 'a': m.tabled_alpha_f, 'u': m.tabled_L_U,
             't': m.tabled_T_f}[w]
        return canon(f(h))
    if w == 'p':
        return canon(m.tabled_L_p(a["L"], h))
    if w == 'n':
        return canon(m.tabled_L_p(a["L"]+1, h))
    if w == 'c':
        return canon(m.iso226_spl_contour(a["L"], h))
    f = m.iso226_spl_itpl(a["L"], h, a["k"])
    y = canon(f(env.reg(np.array([50., 900., 7e3]))))
    env.own(f.get_coeffs())
    return y, env.later(m.iso226_spl_itpl(a["L"], h, a["k"]), [70., 3e3])


@op('audio_weightings', lambda r: {"w": r.choice('abcdf'),
                                   "n": r.random() < .5,
                                   "p": r.random() < .5,
                                   "f": r.choice([0, 0, 1, 2])},
    tags=('cheap',))
def _(a, env):
    from pydsm import audio_weightings as m
    f = getattr(m, a["w"] + '_weighting')
    x = [[20., 300., 1000., 5e3, 18e3], [1000.], [50., 7e3]][a["f"]]
    return canon(f(env.reg(np.array(x)) if a["f"] != 1 else x[0],
                   a["n"], a["p"]))


@op('correlations', lambda r: {"s": r.randint(0, 99),
                               "N": r.choice([1, 2, 5]),
                               "n": r.choice([12, 12, 7, 20])},
    tags=('cheap',))
def _(a, env):
    from pydsm.correlations import raw_acorr, raw_xcorr
    x = env.reg(signal({"s": a["s"], "N": 12}))
    y = env.reg(signal({"s": a["s"]+1, "N": a["n"]}))
    return (canon(raw_acorr(x, a["N"])), canon(raw_xcorr(x, y, a["N"])))


def _memory(x, d):
    """The contents of some vectors, read in another way."""
    return {'f8': lambda: x, 'c16': lambda: x.view(complex),
            'f4': lambda: x.astype('f4'), 'c8': lambda: x.view('c16')
            .astype('c8'), 'i8': lambda: x.view('i8') >> 40,
            'int': lambda: x.astype('i8'), 'i4': lambda: x.astype('i4'),
            'bool': lambda: x > 0,
            'half': lambda: x[:4], 'back': lambda: x[::-1],
            'steps': lambda: np.repeat(x, 2)[::2]}[d]()


@op('same_memory', lambda r: {"s": r.randint(0, 1), "d": r.choice(
    ['f8', 'f8', 'c16', 'c16', 'f4', 'c8', 'i8', 'int', 'i4', 'bool', 'half',
     'back', 'steps'])}, tags=('cheap',))
def _(a, env):
    from pydsm import audio_weightings, correlations, delsig
    x = np.random.RandomState(a["s"]).randint(1, 20, 8).astype(float)
    if a["s"] % 2:
        x[1::2] = 0.
    x = env.reg(_memory(x, a["d"]))
    y = env.reg(x.real/20.)
    out = [correlations.raw_acorr(x, 2), correlations.raw_xcorr(x, x, 2),
           delsig.dbv(x), delsig.undbv(y), delsig.evalRPoly(x, 2.),
           delsig.evalTF((x, [.5], 1), np.array([2., 3.])),
           audio_weightings.a_weighting(y),
           delsig.simulateDSM(y, ([1., 1.], [.5, .2], 1), 3,
                              backend='scipy')]
    return canon(tuple(out))


@op('tdr_values', lambda r: {"v": [r.choice([-1., 0., 2.5]) for _ in '12'],
                             "w": [r.choice([1., 0., 3.]) for _ in '12'],
                             "again": r.randint(0, 6)}, tags=('cheap',))
def _(a, env):
    from pydsm import cvxpy_tdr as c
    x = c.variable(2, 1, name='x')
    p = c.parameter(2, 1, name='p')
    for i in range(2):
        x[i, 0].value = a["v"][i]
        p[i, 0].value = a["w"][i]
    e = x-2.*p
    q = [x, x, p, x.T, e, c.vstack([x, p]), x[0, 0]+p[1, 0],
         x[1, 0]*3.]
    out = [canon(y.value) for y in q]
    out.append(canon(q[a["again"]].value))
    x[0, 0].value = 7.
    out += [canon(q[i].value) for i in (a["again"], 0, 4)]
    return tuple(out)


@op('decibel', lambda r: {"s": r.randint(0, 99),
                          "t": r.choice(['voltage', 'power']),
                          "z": r.choice([0, 0, 0, 1, 2, 6]),
                          "R": r.choice([1, 50, 75.])}, tags=('cheap',))
def _(a, env):
    from pydsm import delsig as d
    from pydsm.relab import db
    x = env.reg(1+np.abs(signal({"s": a["s"], "N": 6})))
    z = env.reg(np.where(np.arange(6) < a["z"], 0., x))
    return tuple(canon(f(z)) for f in (d.dbv, d.dbp, d.dbm)) + \
        tuple(canon(f(x)) for f in (
            d.dbv, d.dbp, d.dbm, d.undbv, d.undbp, d.undbm, db,
            lambda x: db(x, a["t"], a["R"]), lambda x: d.dbm(x, a["R"]),
            lambda x: d.undbm(x, a["R"])))


@op('ds_tools', lambda r: {"n": r.randint(1, 14), "o": r.choice([0, 1, 2]),
                           "f0": r.choice([0., .1, .2]),
                           "osr": r.choice([32, 32, 10]),
                           "c": r.random() < .2,
                           "m": r.choice([None, None, [2, 1], [1, 3]])},
    tags=('cheap', 'view'))
def _(a, env):
    from pydsm.delsig import ds_optzeros, ds_f1f2, partitionABCD, padl, padr
    M = env.reg(np.arange(30.).reshape(5, 6))
    return (canon(ds_optzeros(a["n"], a["o"])),
            canon(ds_f1f2(a["osr"], a["f0"], a["c"])),
            canon(partitionABCD(M) if a["m"] is None else
                  partitionABCD(M, env.reg(a["m"][0]))),
            canon(padl(M, 8, 1)),
            canon(padr(M[0], 8, 2)))


@op('cplxpair', lambda r: {"h": gen_ntf(r, r.randint(2, 6)),
                           "s": r.randint(0, 9),
                           "k": r.choice(['', '', 'tol', 'dim', 'single',
                                          'same'])},
    tags=('cheap',))
def _(a, env):
    from pydsm.relab import cplxpair
    z = ntf_zpk(a["h"])[1]
    g = np.random.Generator(np.random.PCG64(a["s"]))
    z = z[g.permutation(len(z))]
    if a["k"] == 'tol':
        z = env.reg(z*(1+1e-7*g.uniform(-1, 1, len(z))))
        return (canon(cplxpair(z, 1e-5)), canon(cplxpair(z, 1e-9)))
    if a["k"] == 'same':
        # pairs with the same real part
        z = np.concatenate((z, z.real+1j*np.abs(z.imag)+.5j,
                            z.real-1j*np.abs(z.imag)-.5j))
        z = z[g.permutation(len(z))]
    if a["k"] == 'dim':
        z = env.reg(np.array([z, 2*z]))
        return (canon(cplxpair(z, None, 1)), canon(cplxpair(z.T)))
    if a["k"] == 'single':
        z = z.astype(np.complex64)
    return canon(cplxpair(env.reg(z)))


@op('chop', lambda r: {"s": r.randint(0, 9), "t": r.choice(
    [None, 1e-3, .2])}, tags=('cheap',))
def _(a, env):
    from pydsm.utilities import chop, mdot, is_negligible
    x = signal({"s": a["s"], "N": 6})
    x[::2] = 1e-17
    x = env.reg(x)
    t = () if a["t"] is None else (a["t"],)
    return (canon(chop(x)), canon(chop(x, *t)), canon(is_negligible(x, *t)),
            canon(chop(float(x[1]))), canon(chop(x+1j*x[::-1])),
            canon(is_negligible(x)), canon(mdot(x, np.eye(6), x)))


@op('ft', lambda r: {"s": r.randint(0, 99), "N": r.choice([3, 6, 7]),
                     "fs": r.choice([1, 2.]), "t0": r.choice([0, 1])},
    tags=('cheap',))
def _(a, env):
    from pydsm.ft import fft_centered, dtft, dtft_hermitian
    x = env.reg(signal({"s": a["s"], "N": a["N"]}))
    X, H = dtft(x, a["fs"], a["t0"]), dtft_hermitian(x, a["fs"])
    return (canon(fft_centered(x, a["fs"])),
            tuple([canon(X(f)) for f in (.1, .4)]),
            tuple([canon(H(f)) for f in (.1, .4)]),
            env.later(dtft(x.copy(), a["fs"], a["t0"]), [.1, .3]),
            env.later(dtft_hermitian(x.copy(), a["fs"]), [.1, .3]))


# ---- functions driven by user callbacks --------------------------------

def _gq(r):
    if r.random() < .5:
        return {}
    return {"epsabs": r.choice([1e-9, 1e-7]), "epsrel": r.choice([1e-6, 1e-8]),
            "limit": r.choice([50, 80, 8])}


def _q(a, env):
    return {"quad_opts": env.reg(dict(a["q"]))} if a.get("q") else {}


def _gt(r):
    return r.choice(['range', 'range', 'scalar', 'list', 'frac'])


def times(a, env):
    k = a.get("t", 'range')
    if k == 'scalar':
        return a["n"]
    if k == 'list':
        return env.reg([0, a["n"], -1])
    if k == 'frac':
        return env.reg(np.array([.5, -1.25])[:a["n"]])
    return env.reg(np.arange(a["n"]))


@op('idtft', lambda r: {"w": gen_weight(r, False, True), "n": r.randint(1, 3),
                        "q": _gq(r), "fs": r.choice([1, 2]), "t": _gt(r)},
    tags=('cheap', 'callback'))
def _(a, env):
    from pydsm.ft import idtft
    return canon(idtft(weight(a["w"], env), times(a, env), a["fs"],
                       **_q(a, env)))


@op('idtft_hermitian', lambda r: {"w": gen_weight(r, False, True),
                                  "n": r.randint(1, 3), "q": _gq(r),
                                  "t": _gt(r), "fs": r.choice([1, 1, 2])},
    tags=('cheap', 'callback'))
def _(a, env):
    from pydsm.ft import idtft_hermitian
    return canon(idtft_hermitian(weight(a["w"], env), times(a, env),
                                 a["fs"], **_q(a, env)))


@op('q0_weighting', lambda r: {"w": gen_weight(r, hard=True), "P": r.randint(1, 3),
                               "q": _gq(r)}, tags=('cheap', 'callback'))
def _(a, env):
    from pydsm.NTFdesign.weighting import q0_weighting
    return canon(q0_weighting(a["P"], weight(a["w"], env), **_q(a, env)))


@op('mult_weightings', lambda r: {"w": [gen_weight(r) for _ in range(
    r.randint(1, 3))]}, tags=('cheap', 'callback'))
def _(a, env):
    from pydsm.NTFdesign.weighting import mult_weightings
    w = mult_weightings(*[weight(s, env) for s in a["w"]])
    return tuple([canon(w(f)) for f in (.05, .2, .41)]), env.later(
        mult_weightings(*[weight(s) for s in a["w"]]), [.1, .3])


@op('noise_gain', lambda r: {"h": gen_ntf(r), "w": gen_weight(r, hard=True),
                             "b": r.choice([[0, .5], [0, .1], [.1, .3]]),
                             "avg": r.random() < .3, "q": _gq(r),
                             "none": r.random() < .15},
    tags=('cheap', 'callback'))
def _(a, env):
    from pydsm.NTFdesign import quantization_noise_gain
    return canon(quantization_noise_gain(
        env.reg(ntf_zpk(a["h"])), None if a.get("none") else
        weight(a["w"], env), tuple(a["b"]), a["avg"],
        **_q(a, env)))


@op('spread_zeros', lambda r: {"n": r.randint(2, 5),
                               "osr": r.choice([8, 16]),
                               "m": r.choice([10, 15]),
                               "kw": r.random() < .5},
    tol=1e-6, tags=('callback', 'optim', 'medium'))
def _(a, env):
    from pydsm.NTFdesign.helpers import spread_fir_uc_zeros
    from pydsm.delsig import evalTF
    x = np.exp(1j*np.pi*np.linspace(.01, 1./a["osr"], 8))

    def cf(ntf, scale=1., off=0.):
        return scale*float(np.mean(np.abs(evalTF(ntf, x))**2))+off+1e-9
    args = (env.reg([2.]), env.reg({"off": 1e-8})) if a["kw"] else ([], {})
    z = spread_fir_uc_zeros(a["n"], a["osr"], env.cb(cf), args[0], args[1],
                            L_BFGS_B_opts=env.reg({"maxiter": a["m"]}))
    return _canon(np.poly(raw(z)))


# ---- DELSIG style designs ----------------------------------------------

def _g_synth(r):
    f0 = r.choice([0, 0, 0, .1, .23, .3, .001])
    n = r.choice([2, 4, 6, 8]) if f0 else r.choice(
        [1, 2, 3, 4, 5, 6, 7, 8, 10, 14])
    return {"n": n, "osr": r.choice([8, 16, 32, 64, 100]), "opt": r.choice(
        [0, 1, 2]), "H": r.choice([1.1, 1.3, 1.5, 2., 4., 20.]), "f0": f0,
        "uo": r.choice([None, True, False])}


@op('synthesizeNTF', _g_synth, tol=1e-7, tags=('cheap', 'design'))
def _(a, env):
    from pydsm.delsig import synthesizeNTF
    kw = {} if a["uo"] is None else {"use_optimizer": a["uo"]}
    return ntf_canon(synthesizeNTF(a["n"], a["osr"], a["opt"], a["H"],
                                   a["f0"], **kw))


@op('synthesizeNTF_zeros', lambda r: {"n": r.choice([2, 4]), "osr": 32,
                                      "th": r.choice([.02, .05]),
                                      "H": r.choice([1.4, 1.7])},
    tol=1e-7, tags=('cheap', 'design'))
def _(a, env):
    from pydsm.delsig import synthesizeNTF
    th = a["th"]*np.arange(1, a["n"]//2+1)
    z = np.concatenate((np.exp(1j*th), np.exp(-1j*th)))
    return ntf_canon(synthesizeNTF(a["n"], a["osr"], env.reg(z), a["H"],
                                   0.))


@op('synthesizeNTF_opt3', lambda r: {"n": r.randint(2, 5),
                                     "osr": r.choice([16, 32]),
                                     "H": r.choice([1.4, 1.6]),
                                     "o": r.choice([3, 3, 4]),
                                     "f0": r.choice([0., 0., 0., .2])},
    tol=1e-5, tags=('design', 'optim', 'medium'))
def _(a, env):
    from pydsm.delsig import synthesizeNTF
    n = 2*a["n"] if a["f0"] else a["n"]
    return ntf_canon(synthesizeNTF(min(n, 6), a["osr"], a["o"], a["H"],
                                   a["f0"]))


@op('chebyshev', lambda r: {"n": r.randint(1, 8),
                            "osr": r.choice([4, 8, 16, 32]),
                            "H": r.choice([1.2, 1.5, 2., 3.]),
                            "o": r.choice([0, 1]),
                            "f0": r.choice([0., 0., 0., .2])},
    tol=1e-6, tags=('cheap', 'design'))
def _(a, env):
    from pydsm.delsig import synthesizeChebyshevNTF
    return ntf_canon(synthesizeChebyshevNTF(a["n"], a["osr"], a["o"],
                                            a["H"], a["f0"]))


@op('clans', lambda r: {"n": r.choice([1, 2, 2, 3, 3, 4]),
                        "osr": r.choice([16, 32]),
                        "nq": r.choice([3, 5]), "rmax": r.choice([.9, .95]),
                        "m": r.choice([4, 8])},
    tol=1e-5, tags=('design', 'optim', 'medium'))
def _(a, env):
    from pydsm.delsig import clans
    return ntf_canon(clans(a["n"], a["osr"], a["nq"], a["rmax"], 0,
                           show_progress=a.get("sp", False), slsqp_opts=env.reg({"maxiter": a["m"]})))


@op('ntf_dunn', lambda r: {"n": r.randint(1, 4), "osr": r.choice([32, 64]),
                           "H": r.choice([1.4, 1.6])},
    tol=1e-7, tags=('cheap', 'design'))
def _(a, env):
    from pydsm.NTFdesign import ntf_dunn
    return ntf_canon(ntf_dunn(a["n"], a["osr"], a["H"]))


@op('maxflat', lambda r: {"n": r.randint(1, 6), "al": r.choice([3., 20.])},
    tags=('cheap',))
def _(a, env):
    from pydsm.NTFdesign.helpers import maxflat_fir_zeros
    return _canon(np.poly(raw(maxflat_fir_zeros(a["n"], a["al"]))))


# ---- optimal designs through solvers -----------------------------------

def solver_kw(a, env):
    kw = {"modeler": a["mod"], "show_progress": a.get("sp", False)}
    if a["mod"] == 'default':
        del kw["modeler"]
    if a.get("co") and a["mod"] == 'cvxpy':
        kw["cvxpy_opts"] = env.reg(dict(a["co"]))
        if a["co"].get("solver") == 'scs':
            kw["scs_opts"] = env.reg({"eps": 1e-8, "max_iters": 50000})
            return kw
    if a.get("so"):
        kw["cvxopt_opts"] = env.reg(dict(a["so"]))
    return kw


def _gco(r):
    return r.choice([None, None, {"override_kktsolver": False},
                     {"solver": "scs"}])


def _gs(r):
    if r.random() < .4:
        return {}
    return {"maxiters": r.choice([60, 80, 90]),
            "abstol": r.choice([1e-7, 1e-8, 3e-8]),
            "reltol": r.choice([1e-6, 1e-7, 3e-7]),
            "feastol": r.choice([1e-6, 1e-7, 3e-7])}


ALIASES = ['q0', 'noise', 'filter', 'audio', 'minmax']
MODELERS = ['cvxpy_old', 'picos', 'cvxpy', 'default']
MODS = {'ntf_fir_audio': ['cvxpy_old', 'default'],
        'solver_aliases': ['cvxpy_old', 'default', 'picos']}


def _gmod(r):
    return r.choice(['cvxpy_old', 'cvxpy_old', 'default', 'cvxpy', 'picos'])


@op('ntf_fir_weighting', lambda r: {
    "n": r.choice([2, 2, 3, 3, 4, 4, 8]), "w": gen_weight(r),
    "H": r.choice([1.4, 1.5, 2.]), "mod": _gmod(r), "so": _gs(r),
    "co": _gco(r), "q": _gq(r)},
    tol=1e-5, tags=('design', 'solver', 'callback', 'slow'))
def _(a, env):
    from pydsm.NTFdesign import ntf_fir_weighting
    kw = solver_kw(a, env)
    kw.update(_q(a, env))
    return ntf_canon(ntf_fir_weighting(a["n"], weight(a["w"], env), a["H"],
                                       **kw))


@op('ntf_fir_from_q0', lambda r: {
    "q": [r.choice([1., 1., 2.])] + [r.choice([-.6, -.4, .2, .5])*(.6**i)
                                     for i in range(r.randint(2, 3))],
    "norm": r.choice(['auto', 'auto', None, 3.]),
    "fix": r.choice([None, True, False]),
    "H": r.choice([1.4, 1.5, 2.]), "mod": _gmod(r), "so": _gs(r),
    "co": _gco(r)},
    tol=1e-5, tags=('design', 'solver', 'slow'))
def _(a, env):
    from pydsm.NTFdesign.weighting import ntf_fir_from_q0
    kw = solver_kw(a, env)
    if a["fix"] is not None:
        kw["fix_pos"] = a["fix"]
    return ntf_canon(ntf_fir_from_q0(env.reg(np.array(a["q"])), a["H"],
                                     a["norm"], **kw))


@op('ntf_hybrid_weighting', lambda r: {
    "n": r.randint(2, 3), "w": gen_weight(r),
    "H": r.choice([1.5, 2.]),
    "p": r.choice([[], [.4], [.3, -.2]]), "mod": _gmod(r), "so": _gs(r),
    "co": _gco(r), "q": _gq(r)}, tol=1e-5,
    tags=('design', 'solver', 'callback', 'slow'))
def _(a, env):
    from pydsm.NTFdesign import ntf_hybrid_weighting
    kw = solver_kw(a, env)
    kw.update(_q(a, env))
    return ntf_canon(ntf_hybrid_weighting(a["n"], weight(a["w"], env),
                                          a["H"], env.reg(list(a["p"])), **kw))


@op('ntf_fir_minmax', lambda r: {
    "n": r.choice([2, 2, 3, 3, 4, 4, 7]), "osr": r.choice([8, 16, 32]),
    "H": r.choice([1.5, 2.]), "f0": r.choice([0, 0, .2]),
    "zf": r.random() < .3,
    "mod": _gmod(r), "so": _gs(r), "co": _gco(r)},
    tol=1e-4, tags=('design', 'solver', 'slow'))
def _(a, env):
    from pydsm.NTFdesign import ntf_fir_minmax
    return ntf_canon(ntf_fir_minmax(a["n"], a["osr"], a["H"], a["f0"],
                                    a["zf"], **solver_kw(a, env)))


@op('ntf_fir_audio', lambda r: {
    "n": r.randint(2, 3), "osr": r.choice([16, 32]),
    "w": r.choice('abcdf'), "att": r.choice([20, 30]),
    "name": r.random() < .3,
    "mod": r.choice(['cvxpy_old', 'default']), "so": _gs(r)},
    tol=1e-5, tags=('design', 'solver', 'slow', 'callback'))
def _(a, env):
    from pydsm.NTFdesign import ntf_fir_audio_weighting
    from pydsm import audio_weightings as m
    f = getattr(m, a["w"]+'_weighting')
    kw = solver_kw(a, env)
    kw["quad_opts"] = env.reg({"epsabs": 1e-6, "epsrel": 1e-4, "limit": 10})
    return ntf_canon(ntf_fir_audio_weighting(
        a["n"], a["osr"], a["w"] if a["name"] else env.cb(f),
        max_attn=a["att"], **kw))


# ---- further helpers and deprecated aliases ------------------------------

@op('ds_quantize', lambda r: {"y": [round(r.uniform(-6, 6), 2)
                                    for _ in range(r.randint(1, 3))],
                              "n": r.choice([2, 3, 5, 8])}, tags=('cheap',))
def _(a, env):
    from pydsm.delsig import ds_quantize
    y = env.reg(np.array(a["y"]).reshape(-1, 1))
    return canon(ds_quantize(y, env.reg([a["n"]+i for i in range(len(y))])))


@op('ba_forms', lambda r: {"h": gen_ntf(r), "m": r.choice([None, 8]),
                           "d": r.randint(0, 2)}, tags=('cheap',))
def _(a, env):
    from pydsm.delsig import evalTF, evalRPoly, rmsGain
    from pydsm.ir import impulse_response
    z, p, k = ntf_zpk(a["h"])
    h = env.reg((np.real(np.poly(z)), np.real(np.poly(p))))
    x = env.reg(np.exp(1j*np.linspace(.1, 3, 4)))
    zi = env.reg(np.concatenate((z, [np.inf]*a["d"])))
    return (canon(evalTF(h, x)), canon(evalTF(h, x[0])),
            canon(evalRPoly(zi, x, 2.)), canon(rmsGain(h, 0, .1)),
            canon(impulse_response(h, a["m"])))


@op('dsclansNTF', lambda r: {"n": r.randint(2, 5), "s": r.randint(0, 30),
                             "rmax": r.choice([.9, .95])}, tags=('cheap',))
def _(a, env):
    from pydsm.delsig import dsclansNTF
    g = np.random.Generator(np.random.PCG64(a["s"]))
    x = env.reg(g.uniform(-.5, .5, a["n"]))
    Hz = env.reg(np.exp(.02j*np.arange(a["n"])))
    return ntf_canon(dsclansNTF(x, a["n"], a["rmax"], Hz))


@op('ds_synNTFobj1', lambda r: {"h": gen_ntf(r, r.choice([4, 6])),
                                "osr": r.choice([16, 32]),
                                "f0": r.choice([0, .2])}, tags=('cheap',))
def _(a, env):
    from pydsm.delsig import ds_synNTFobj1
    p = env.reg(ntf_zpk(a["h"])[1])
    n = len(p)//2 if a["f0"] == 0 else len(p)//2//2
    x = env.reg(np.linspace(.2, .8, n))
    return canon(ds_synNTFobj1(x, p, a["osr"], a["f0"]))


@op('padding', lambda r: {"s": r.randint(0, 50), "n": r.choice([3, 5, 8]),
                          "m": r.random() < .5,
                          "v": r.choice([0., 1., -2.])}, tags=('cheap',))
def _(a, env):
    from pydsm.delsig import padl, padr, padt, padb
    x = signal({"s": a["s"], "N": 6})
    x = env.reg(x.reshape(2, 3) if a["m"] else x[:3])
    return tuple(canon(f(x, a["n"], a["v"]))
                 for f in (padl, padr, padt, padb))


@op('rms_eps', lambda r: {"s": r.randint(0, 50), "d": r.random() < .5},
    tags=('cheap',))
def _(a, env):
    from pydsm.delsig import rms
    from pydsm.relab import eps
    x = env.reg(signal({"s": a["s"], "N": 7}))
    return (canon(rms(x, a["d"])), canon(eps(x)), canon(eps(-2.5)),
            canon(eps(np.float32)))


@op('axisLabels', lambda r: {"s": r.randint(0, 50), "i": r.choice([1, 2, 3]),
                             "t": r.random() < .5}, tags=('cheap',))
def _(a, env):
    from pydsm.delsig import axisLabels
    x = signal({"s": a["s"], "N": 7})
    x[2] = 1e-9
    i = a["i"]
    return canon(axisLabels(env.reg(x), (1, i) if a["t"] else i))


@op('shiftdim', lambda r: {"n": r.choice([None, 0, 1, 2, 3, -1, -2]),
                           "sh": r.choice([[1, 1, 3, 1, 2], [2, 3],
                                           [1, 4], [6]])},
    tags=('cheap', 'view'))
def _(a, env):
    from pydsm.relab import shiftdim
    x = env.reg(np.arange(float(np.prod(a["sh"]))).reshape(a["sh"]))
    return canon(shiftdim(x, a["n"]))


@op('dunn_optzeros', lambda r: {"n": r.randint(1, 8),
                                "osr": r.choice([16, 64])}, tags=('cheap',))
def _(a, env):
    from pydsm.NTFdesign.psychoacoustic import (dunn_optzeros,
                                                dunn_optzeros_cplx)
    return (canon(dunn_optzeros(a["n"])),
            canon(dunn_optzeros_cplx(a["n"], a["osr"])))


@op('legacy', lambda r: {"P": r.randint(1, 4), "s": r.randint(0, 50),
                         "h": gen_ntf(r),
                         "w": r.choice(['zpk', 'ba', 'imp'])},
    tags=('cheap',))
def _(a, env):
    from pydsm.NTFdesign.legacy import (q0_from_filter_ir,
                                        quantization_noise_gain_by_conv)
    ir = env.reg(signal({"s": a["s"], "N": 9}))
    h = {'zpk': (np.array([.5]), np.array([.2]), 1.),
         'ba': (np.array([1., -.5]), np.array([1., -.2])), 'imp': ir}[a["w"]]
    return (canon(q0_from_filter_ir(a["P"], ir)),
            canon(quantization_noise_gain_by_conv(
                env.reg(ntf_zpk(a["h"])), env.reg(h), a["w"])))


@op('aliases', lambda r: {"k": r.choice(['db', 'cplxpair', 'dunn', 'synth',
                                         'cheby', 'conv']),
                          "h": gen_ntf(r, r.choice([2, 4])),
                          "n": r.randint(2, 4)}, tol=1e-6, tags=('cheap',))
def _(a, env):
    k = a["k"]
    h = env.reg(ntf_zpk(a["h"]))
    if k == 'db':
        from pydsm.utilities import db
        return canon(db(env.reg(1+np.arange(3.))))
    if k == 'cplxpair':
        from pydsm.utilities import cplxpair
        return canon(cplxpair(h[0]))
    if k == 'dunn':
        from pydsm.NTFdesign.psychoacoustic import synthesize_ntf_dunn
        return ntf_canon(synthesize_ntf_dunn(a["n"]))
    if k == 'synth':
        from pydsm.NTFdesign.delsig import synthesizeNTF
        return ntf_canon(synthesizeNTF(a["n"], 32, 1))
    if k == 'cheby':
        from pydsm.NTFdesign.delsig import synthesizeChebyshevNTF
        return ntf_canon(synthesizeChebyshevNTF(a["n"], 16))
    from pydsm.NTFdesign.filter_based import quantization_noise_gain_by_conv
    return canon(quantization_noise_gain_by_conv(h, h))


@op('weighted_noise_gain', lambda r: {
    "h": gen_ntf(r), "w": gen_weight(r, False, True), "q": _gq(r)},
    tags=('cheap', 'callback'))
def _(a, env):
    from pydsm.NTFdesign.weighting import quantization_weighted_noise_gain
    return canon(quantization_weighted_noise_gain(
        env.reg(ntf_zpk(a["h"])), weight(a["w"], env), **_q(a, env)))


@op('filter_noise_gain', lambda r: {
    "h": gen_ntf(r), "w": gen_weight(r, hard=True), "q": _gq(r)},
    tags=('cheap', 'callback'))
def _(a, env):
    from pydsm.NTFdesign.filter_based import quantization_noise_gain
    k = a["w"]["k"]
    return canon(quantization_noise_gain(
        env.reg(ntf_zpk(a["h"])), weight(a["w"], env),
        k if k in ('zpk', 'ba') else 'mag', **_q(a, env)))


@op('q0_from_filter', lambda r: {
    "P": r.randint(1, 3), "w": gen_weight(r, hard=True), "q": _gq(r),
    "ir": r.random() < .2}, tags=('cheap', 'callback'))
def _(a, env):
    from pydsm.NTFdesign.filter_based import q0_from_filter
    if a["ir"]:
        return canon(q0_from_filter(a["P"], env.reg(np.array(
            [1., .5, -.2, .1, .05])), 'imp'))
    k = a["w"]["k"]
    return canon(q0_from_filter(
        a["P"], weight(a["w"], env),
        k if k in ('zpk', 'ba') else 'mag', **_q(a, env)))


@op('iso226_tables', lambda r: {"w": r.choice(['A', 'N']),
                                "L": r.choice([20, 40, 70.]),
                                "h": r.random() < .4}, tags=('cheap',))
def _(a, env):
    from pydsm import iso226 as m
    if a["w"] == 'A':
        return canon(m.tabled_A_f(a["L"], a["h"]))
    return canon(m.tabled_L_N(m.tabled_L_p(a["L"])))


@op('plotPZ', lambda r: {"h": gen_ntf(r, r.randint(1, 4)),
                         "l": r.random() < .5,
                         "c": r.choice(['b', ['r', 'g']])},
    tags=('plot',))
def _(a, env):
    import matplotlib.pyplot as plt
    from pydsm.delsig import plotPZ
    f = plt.figure()
    try:
        plotPZ(env.reg(ntf_zpk(a["h"])), env.reg(a["c"]), 4, a["l"])
        ax = f.axes[0]
        return (tuple(canon(np.asarray(ln.get_xydata(), dtype=float))
                      for ln in ax.lines),
                tuple(t.get_text() for t in ax.texts))
    finally:
        plt.close(f)


# ---- more designs ---------------------------------------------------------

@op('ntf_fir_minmax_bands', lambda r: {
    "n": r.randint(2, 3), "osr": r.choice([[16, 32], [32, 16]]),
    "f0": r.choice([[0, .25], [.1, .3]]), "H": r.choice([1.5, 2.]),
    "mod": _gmod(r), "so": _gs(r), "co": _gco(r)},
    tol=1e-4, tags=('design', 'solver', 'slow'))
def _(a, env):
    from pydsm.NTFdesign import ntf_fir_minmax
    return ntf_canon(ntf_fir_minmax(
        a["n"], env.reg(list(a["osr"])), a["H"], env.reg(list(a["f0"])),
        False, **solver_kw(a, env)))


@op('solver_aliases', lambda r: {
    "k": r.choice(ALIASES), "n": r.randint(2, 3), "w": gen_weight(r),
    "H": r.choice([1.5, 2.]),
    "mod": r.choice(['cvxpy_old', 'default', 'picos']), "so": _gs(r)},
    tol=1e-4, tags=('design', 'solver', 'callback', 'slow'))
def _(a, env):
    from pydsm.NTFdesign import filter_based, minmax, psychoacoustic
    from pydsm.NTFdesign import weighting as m
    k = a["k"]
    kw = solver_kw(a, env)
    if k == 'q0':
        return ntf_canon(m.synthesize_ntf_from_q0(env.reg(np.array(
            [1., -.4, .2])), a["H"], **kw))
    if k == 'noise':
        return ntf_canon(m.synthesize_ntf_from_noise_weighting(
            a["n"], weight(a["w"], env), a["H"], **kw))
    if k == 'filter':
        w = a["w"]["k"]
        return ntf_canon(filter_based.synthesize_ntf_from_filter(
            a["n"], weight(a["w"], env),
            w if w in ('zpk', 'ba') else 'mag', a["H"], **kw))
    if k == 'audio':
        return ntf_canon(psychoacoustic.synthesize_ntf_from_audio_weighting(
            a["n"], 32, max_attn=20, quad_opts=env.reg(
                {"epsabs": 1e-6, "epsrel": 1e-4, "limit": 10}), **kw))
    return ntf_canon(minmax.synthesize_ntf_minmax(a["n"], 32, a["H"], **kw))

# ---- calls that must fail -------------------------------------------------

@op('bad_call', lambda r: {"k": r.choice([
    'x0', 'x0_2', 'backend', 'u', 'optzeros', 'dunn', 'iso', 'iso2',
    'option', 'option2', 'modeler', 'modeler2', 'htype', 'H_inf', 'order',
    'weight', 'cplxpair', 'labels', 'quad', 'chebyshev', 'clans',
    'partition', 'infeasible', 'f0', 'odd', 'opt', 'bands', 'poles',
    'tdr_shape', 'tdr_square', 'tdr_dcp', 'tdr_value', 'tdr_args', 'legacy',
    'pair2']), "n": r.randint(2, 4)}, tags=('bad',))
def _(a, env):
    from pydsm import NTFdesign as D
    from pydsm import delsig as d
    from pydsm import iso226
    from pydsm.NTFdesign import filter_based, psychoacoustic, weighting
    from pydsm.relab import cplxpair
    from pydsm import cvxpy_tdr as c
    from pydsm.NTFdesign import legacy
    k, n = a["k"], a["n"]
    ntf = ([1.]*n, [.5]*n, 1.)
    u = env.reg(np.zeros(5))
    q = {"show_progress": False}
    f = {
        'x0': lambda: d.simulateDSM(u, ntf, 2, np.zeros(n+1)),
        'x0_2': lambda: d.simulateDSM(u, ntf, 2, np.zeros(n+2),
                                      backend='scipy'),
        'backend': lambda: d.simulateDSM(u, ntf, backend='none'),
        'u': lambda: d.simulateDSM(np.zeros((n, 5)), ntf),
        'optzeros': lambda: d.ds_optzeros(14+n),
        'dunn': lambda: psychoacoustic.dunn_optzeros(8+n),
        'iso': lambda: iso226.iso226_spl_contour(90+n),
        'iso2': lambda: iso226.iso226_spl_itpl(-n),
        'option': lambda: D.ntf_fir_weighting(n, lambda f: 1., nothing=1),
        'option2': lambda: D.quantization_noise_gain(ntf, none_opts={}),
        'modeler': lambda: D.ntf_fir_weighting(n, lambda f: 1.,
                                               modeler='no'),
        'modeler2': lambda: D.ntf_fir_minmax(n, modeler='no'),
        'htype': lambda: filter_based.q0_from_filter(n, u, 'no'),
        'H_inf': lambda: d.synthesizeNTF(n, 32, 1, -1.),
        'order': lambda: d.synthesizeNTF(0, 32, np.ones(3), 1.5),
        'weight': lambda: weighting.q0_weighting(n, 'no'),
        'cplxpair': lambda: cplxpair([1+1j, 2, 3-1j*n]),
        'labels': lambda: d.axisLabels(u, 'no'),
        'quad': lambda: weighting.q0_weighting(n, lambda f: 1/0.),
        'chebyshev': lambda: d.synthesizeChebyshevNTF(n, 16, 5, 'no'),
        'clans': lambda: d.clans(n, 32, 'no'),
        'f0': lambda: d.synthesizeNTF(n, 32, 0, 1.5, .5+.1*n),
        'odd': lambda: d.synthesizeNTF(2*n+1, 32, 0, 1.5, .2),
        'opt': lambda: d.synthesizeNTF(n, 32, np.ones(n+1), 1.5),
        'bands': lambda: D.ntf_fir_minmax(n, [32]*n, 1.5, [0]*(n+1), **q),
        'poles': lambda: D.ntf_hybrid_weighting(
            n, lambda f: 1., 1.5, [.1]*(n+1), **q),
        'tdr_shape': lambda: c.quad_form(c.variable(n, 1, name='x'),
                                         c.matrix([[1., 2.]])),
        'tdr_square': lambda: c.det_rootn(c.variable(n, n+1, name='x')),
        'tdr_dcp': lambda: c.program(c.maximize(c.square(
            c.variable(name='x')))).solve(True),
        'tdr_value': lambda: c.program(c.minimize(
            c.variable(name='x')*c.parameter(name='p'))).solve(True),
        'tdr_args': lambda: c.square(c.parameter(name='p'), n),
        'legacy': lambda: legacy.quantization_noise_gain_by_conv(
            ntf, ntf, 'no'),
        'pair2': lambda: cplxpair([1+1j]*(n+1)),
        'partition': lambda: d.partitionABCD(np.zeros(n)),
        'infeasible': lambda: D.ntf_fir_minmax(n, 16, .5,
                                               modeler='cvxpy_old', **q),
    }[k]
    return canon(f())

# ---- the vendored modelling language -----------------------------------

def _g_tdr(r):
    return {"k": r.choice(['norm1', 'norm2', 'max', 'quad', 'log', 'exp',
                           'sdp', 'sqrt']),
            "n": r.randint(1, 3), "s": r.randint(0, 50),
            "so": _gs(r)}


@op('cvxpy_tdr', _g_tdr, tol=1e-4, tags=('solver', 'slow', 'tdr'))
def _(a, env):
    from pydsm import cvxpy_tdr as c
    g = np.random.Generator(np.random.PCG64(a["s"]))
    n, k = a["n"], a["k"]
    t = np.round(g.uniform(-2, 2, (n, 1)), 3)
    x = c.variable(n, 1, name='x')
    cons = []
    if k == 'norm1':
        cost = c.norm1(x-c.matrix(t))
        cons = [c.leq(x[0, 0], .25)]
    elif k == 'norm2':
        cost = c.norm2(x-c.matrix(t))
        cons = [c.leq(x[0, 0], -.25)]
    elif k == 'max':
        cost = c.max(x)
        cons = [c.geq(x, c.matrix(t))]
    elif k == 'quad':
        cost = c.quad_form(x-c.matrix(t), c.matrix(np.eye(n)*2))
        cons = [c.leq(x, .5)]
    elif k == 'log':
        cost = -c.log(x[0, 0])+2.*x[0, 0]
        cons = [c.equals(x[i, 0], .5) for i in range(1, n)]
    elif k == 'exp':
        cost = c.exp(x[0, 0])-float(abs(t[0, 0])+.5)*x[0, 0]
        cons = [c.equals(x[i, 0], .5) for i in range(1, n)]
    elif k == 'sqrt':
        cost = -c.sqrt(x[0, 0])
        cons = [c.leq(x, float(abs(t[0, 0])+1))]
    else:
        X = c.variable(2, 2, 'symmetric', name='X')
        cost = X[0, 0]+X[1, 1]
        cons = [c.belongs(X, c.semidefinite_cone),
                c.equals(X[0, 1], float(t[0, 0])), c.equals(x, 0.)]
    p = c.program(c.minimize(cost), cons)
    p.options.update(a["so"])
    v = p.solve(not a.get("sp", False))
    return (canon(float(v)), _canon(np.array(raw(x.value), dtype=float)))


def _g_family(r):
    from . import tdrmodel as T
    f = r.choice(sorted(T.FAMILIES))
    return {"fam": f, "so": _gs(r), "par": r.random() < .6,
            "p": {k: T.values(r, k) for k in T.FAMILIES[f][1]}}


@op('tdr_family', _g_family, tol=4e-4, tags=('solver', 'slow', 'tdr'))
def _(a, env):
    from pydsm import cvxpy_tdr as c
    from . import tdrmodel as T
    x = c.variable(2, 1, name='x')
    q = dict(a["p"])
    if a["par"]:
        for k in sorted(q):
            n, attr, _ = T.PARAMS[k]
            q[k] = c.parameter(n, 1, attr, name=k)
            q[k].value = a["p"][k] if n == 1 else c.matrix(
                np.array(a["p"][k]).reshape(-1, 1))
            env.own(q[k].value)
    pair, cons = T.FAMILIES[a["fam"]][0](
        c, x, q, T.function(c, q.get('pos', 2.)))
    p = c.program(pair, cons)
    cons = p.constraints
    p.options.update(a["so"])
    for o in (p, cons, p.objective, x):
        env.own(o.variables)
        if o is not x:
            env.own(o.parameters)
    env.own(x.value)
    v = p.solve(not a.get("sp", False))
    env.own(x.value)
    return canon(float(v))
