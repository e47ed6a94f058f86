"""Simulated modulator sessions: segments, checkpoints, crashes, failover.

A session feeds one input history to one modulator, in segments.  Every
segment starts from a state saved earlier; it may be lost or interrupted and
then run again, possibly on another backend.  Sessions are simulated threads,
so that segments of different modulators interleave.
"""

import numpy as np

from . import kernel

BACKENDS = ['scipy', 'scipy_blas', 'cblas', 'auto']
LEVELS = [2, 2, 2, 3, 3, 4, 5, 9, 16, 33, 101, 1024, 65537, 2**31-1]
SHORT = [1, 2, 3, 5, 8, 17, 31, 33, 40, 63, 64, 65, 100, 120, 127, 129]
MIDDLE = [200, 255, 256, 257, 300, 400, 511, 513]
LONG = [1000, 1023, 1024, 1025, 1500, 2047, 2049, 4095, 4097, 5000, 12000]


# ---- models ------------------------------------------------------------

def gen_model(r, kinds=('exact', 'real', 'ntf')):
    kind = r.choice(kinds)
    m = {"kind": kind, "s": r.randint(0, 10**9)}
    if kind == 'ntf':
        m["order"] = r.choice([1, 1, 2, 2, 3, 4, 5, 6])
        m["nu"] = m["nq"] = 1
        m["nlev"] = [r.choice(LEVELS)]
        m["osr"] = r.choice([4, 8, 16, 32, 64])
        m["rho"] = r.choice([.3, .5, .65, .75, .85])
        m["zeros"] = r.choice(['spread', 'spread', 'dc', 'band', 'inside'])
        m["poles"] = r.choice(['spread', 'spread', 'fir', 'some', 'real',
                               'same'])
        m["mix"] = r.random() < .3
        m["as"] = r.choice(['array', 'list', 'strided', 'readonly',
                            'bigendian'])
        return m
    m["order"] = r.choice([1, 1, 2, 3, 4, 5, 8, 13, 20, 33]
                          if kind == 'real' else [1, 1, 2, 3, 4, 5, 9, 17])
    m["nu"] = r.choice([1, 1, 1, 1, 2, 3, 4, 7])
    m["nq"] = r.choice([1, 1, 1, 1, 2, 3, 4, 7])
    m["nlev"] = [r.choice(LEVELS)
                 for _ in range(m["nq"])]
    m["as"] = r.choice(['array', 'array', 'list', 'fortran', 'strided',
                        'reversed', 'bigendian', 'matrix', 'readonly',
                        'single', 'wide'])
    return m


def gen_twin(r, m):
    """A modulator hard to tell from another one."""
    how = r.choice(['poles', 'zeros', 'pole_sum', 'tiny', 'shuffled']
                   if m["kind"] == 'ntf' else
                   ['entry', 'tiny', 'levels', 'rows', 'split', 'sign'])
    t = dict(m, twin={"how": how, "s": r.randint(0, 10**9)})
    if how == 'levels':
        t["nlev"] = [r.choice(LEVELS) for _ in t["nlev"]]
    elif how == 'split':
        # another modulator whose matrices have the same shape
        n, nq, nu = m["order"], m["nq"], m["nu"]
        t["order"] = r.randint(1, n+nq-1) if n+nq > 1 else n
        t["nq"] = n+nq-t["order"]
        t["nlev"] = [r.choice(LEVELS) for _ in range(t["nq"])]
    return t


def relatives(r, sessions):
    """Sometimes, sessions on modulators that resemble each other."""
    for i in range(1, len(sessions)):
        if r.random() < .5:
            sessions[i]["model"] = gen_twin(r, sessions[i-1]["model"])
            if r.random() < .3:
                sessions[i]["u"] = dict(sessions[i-1]["u"])


def rng(*seed):
    return np.random.Generator(np.random.PCG64(list(seed)))


class Model(object):

    def __init__(self, spec):
        self.spec = spec
        g = rng(spec["s"], 1)
        n, nu, nq = spec["order"], spec["nu"], spec["nq"]
        self.n, self.nu, self.nq = n, nu, nq
        self.nlev = np.array(spec["nlev"][:nq], dtype=int)
        self.kind = spec["kind"]
        if self.kind == 'ntf':
            z, p = [], []
            if n % 2:
                z.append(1.)
                p.append(spec["rho"]*g.uniform(.3, 1))
            for i in range(n//2):
                th = np.pi/spec["osr"]*(i+.7)/max(1, n//2)
                z += [np.exp(1j*th), np.exp(-1j*th)]
                q = spec["rho"]*np.exp(1j*(th*2+.15*(i+1)))
                p += [q, q.conjugate()]
            z, p = family(spec, g, z, p)
            if spec.get("twin"):
                z, p = twin_roots(spec["twin"], z, p)
            self.zpk = (np.array(z, dtype=complex),
                        np.array(p, dtype=complex), 1.)
            self.b = np.real(np.poly(self.zpk[0]))
            self.a = np.real(np.poly(self.zpk[1]))
            return
        if self.kind == 'exact':
            # unit triangular with integer entries: all the arithmetic is
            # exact in double precision
            A = np.tril(g.integers(-1, 2, (n, n)), -1).astype(float)
            A += np.diag(g.choice([0., 1., 1., -1.], n))
            B = g.integers(-8, 9, (n, nu+nq))/8.
            C = g.integers(-2, 3, (nq, n)).astype(float)
            D = g.integers(-4, 5, (nq, nu))/4.
        else:
            A = g.uniform(-1, 1, (n, n))
            A *= .97/max(.97, np.max(np.abs(np.linalg.eigvals(A))))
            B = g.uniform(-1, 1, (n, nu+nq))
            C = g.uniform(-1, 1, (nq, n))
            D = g.uniform(-.5, .5, (nq, nu))
        if spec.get("twin"):
            twin_matrices(spec["twin"], A, B, C, D, self.kind == 'exact')
        self.A, self.B, self.C, self.D = A, B, C, D
        self.abcd = np.vstack((np.hstack((A, B)), np.hstack(
            (C, D, np.zeros((nq, nq))))))

    def arg2(self, buffers=None):
        how = self.spec["as"]
        if buffers is not None and how == 'array':
            # an application that fills the same arrays again
            if self.kind == 'ntf':
                z, p, k = self.zpk
                return (refill(buffers, 'z', z), refill(buffers, 'p', p), k)
            return refill(buffers, 'abcd', self.abcd)
        if self.kind == 'ntf':
            z, p, k = self.zpk
            if how == 'list':
                return (list(z), list(p), 1.)
            return (form(z, how), form(p, how), k)
        return form(self.abcd, how)

    def nlev_arg(self, how):
        n = [int(x) for x in self.nlev]
        if len(n) == 1 and how % 3:
            return n[0] if how % 3 == 1 else np.int64(n[0])
        return [lambda: np.array(n, dtype=np.int64),
                lambda: np.array(n, dtype=float),
                lambda: n,
                lambda: tuple(n),
                lambda: form(np.array(n, dtype=np.int32), 'strided'),
                lambda: form(np.array(n, dtype=np.int32), 'reversed'),
                lambda: form(np.array(n, dtype=np.int32), 'readonly'),
                lambda: np.array(n, dtype='>i4'),
                lambda: fit(n, 'i1', 'i2', 'i4'),
                lambda: fit(n, 'u1', 'u2', 'u4'),
                lambda: fit(n, 'f2', 'f4', 'f8'),
                lambda: form(np.array(n), 'strided')][how % 12]()


def twin_roots(twin, z, p):
    g = rng(twin["s"], 4)
    z, p = np.array(z, dtype=complex), np.array(p, dtype=complex)
    how = twin["how"]

    if how == 'shuffled':
        return z[g.permutation(len(z))], p[g.permutation(len(p))]
    x = z if how == 'zeros' else p
    up = [i for i in range(len(x)) if x[i].imag > 0]
    down = []
    for i in up:
        j = [j for j in range(len(x)) if x[j] == x[i].conjugate()
             and j not in down]
        if not j:
            return z, p
        down.append(j[0])
    real = [i for i in range(len(x)) if x[i].imag == 0]
    if how == 'zeros':
        for i, j in zip(up, down):
            x[i] *= np.exp(1j*g.uniform(-.02, .02))
            x[j] = x[i].conjugate()
    elif how == 'tiny':
        k = 1-10.**-g.integers(2, 9)
        for i, j in zip(up, down):
            x[i] *= k
            x[j] = x[i].conjugate()
        for i in real:
            x[i] *= k
    elif how == 'poles':
        k = g.uniform(.8, .98)
        for i, j in zip(up, down):
            x[i] *= k
            x[j] = x[i].conjugate()
        for i in real:
            x[i] *= k
    else:
        for i, j in zip(up, down):
            x[i] = x[i].real+1j*x[i].imag*g.uniform(.2, .95)
            x[j] = x[i].conjugate()
        for i, j in zip(real[::2], real[1::2]):
            d = g.uniform(0, .05)
            a, b = sorted((x[i].real, x[j].real))
            if a+d <= b-d:
                x[i], x[j] = a+d, b-d
    return z, p


def twin_matrices(twin, A, B, C, D, exact):
    g = rng(twin["s"], 4)
    how = twin["how"]
    if how == 'entry':
        M = [B, C, D][g.integers(3)]
        M[g.integers(M.shape[0]), g.integers(M.shape[1])] += \
            1. if M is C else .25
    elif how == 'tiny':
        i, j = g.integers(B.shape[0]), g.integers(B.shape[1])
        B[i, j] += .125 if exact else 10.**-g.integers(3, 9)
    elif how == 'rows' and len(C) > 1:
        C[:] = C[::-1].copy()
        D[:] = D[::-1].copy()
    elif how == 'sign':
        C *= -1
        B[:, D.shape[1]:] *= -1


def fit(n, *types):
    """An array of the first type that can hold the numbers."""
    for t in types:
        with np.errstate(all='ignore'):
            y = np.array(n).astype(t)
        if [int(x) for x in y if np.isfinite(x)] == n:
            return y


def family(spec, g, z, p):
    """NTFs other than the lowpass ones with spread zeros and poles."""
    n = len(z)
    h = n//2

    def pairs(r, th, first):
        out = [first] if n % 2 else []
        for i in range(h):
            q = r[i]*np.exp(1j*th[i])
            out += [q, q.conjugate()]
        return out

    if spec.get("zeros") == 'dc':
        z = [1.]*n
    elif spec.get("zeros") == 'band':
        z = pairs(np.ones(h), np.sort(g.uniform(.05, 3.1, h)),
                  g.choice([1., -1.]))
    elif spec.get("zeros") == 'inside':
        z = pairs(g.uniform(.8, 1, h), g.uniform(0, np.pi, h),
                  g.uniform(.5, 1))
    kind = spec.get("poles")
    if kind == 'fir':
        p = [0.]*n
    elif kind == 'some':
        for i in range(n % 2, n, 2):
            if g.random() < .5:
                p[i:i+2] = [0., 0.]
        if n % 2 and g.random() < .5:
            p[0] = 0.
    elif kind == 'real':
        p = list(spec["rho"]*g.uniform(-1, 1, n))
    elif kind == 'same':
        p = [min(spec["rho"], .65 if n > 4 else 1.)]*n
    if spec.get("mix"):
        z = [z[i] for i in g.permutation(n)]
        p = [p[i] for i in g.permutation(n)]
    return z, p


def refill(buffers, name, x):
    b = buffers.setdefault((name,)+x.shape, np.empty_like(x))
    b[...] = x
    return b


def form(x, how):
    """The same numbers in another memory layout or container."""
    x = np.asarray(x)
    if how == 'list':
        return x.tolist()
    if how == 'fortran':
        return np.asfortranarray(x)
    if how == 'strided':
        big = np.full(tuple(2*d for d in x.shape), 7.7).astype(x.dtype)
        sl = tuple(slice(0, None, 2) for _ in x.shape)
        big[sl] = x
        return big[sl]
    if how == 'reversed':
        sl = tuple(slice(None, None, -1) for _ in x.shape)
        return np.ascontiguousarray(x[sl])[sl]
    if how == 'column' and x.ndim == 1:
        return x.reshape(-1, 1).copy()
    if how == 'bigendian':
        return x.astype(x.dtype.newbyteorder('>'))
    for t in {'single': ['f4'], 'wide': [np.longdouble], 'int': ['i8'],
              'small': ['i1', 'i2', 'i4']}.get(how, ()):
        if x.dtype.kind == 'f' and np.all(np.abs(x) < 2**62):
            y = x.astype(t)
            if np.array_equal(y.astype(float), x):
                return y
    if how == 'matrix' and x.ndim == 2:
        return np.matrix(x)
    if how == 'readonly':
        y = x.copy()
        y.flags.writeable = False
        return y
    return x.copy()


# ---- inputs ------------------------------------------------------------

def gen_input(r, long_ok=True):
    u = {"s": r.randint(0, 10**9),
         "N": r.choice(SHORT),
         "amp": r.choice([.1, .4, .7, 1., 2., 20.]),
         "shape": r.choice(['noise', 'sine', 'dc', 'zero']),
         "grid": r.choice([None, None, 1., 8.])}
    if r.random() < .1:
        u["N"] = r.choice(MIDDLE)
    elif long_ok and r.random() < .06:
        u["N"] = r.choice(LONG)
    if r.random() < (.3 if u["N"] < 200 else .7):
        u["spikes"] = r.choice([1, 3, 8])
        u["at"] = r.choice(['any', 'edge'])
        u["spike"] = r.choice([3., 50., 1e4, 1e9, 1e12])
    return u


def make_input(spec, m):
    g = rng(spec["s"], 2)
    N, nu = spec["N"], m.nu
    t = np.arange(N)
    if spec["shape"] == 'noise':
        u = g.uniform(-1, 1, (nu, N))
    elif spec["shape"] == 'sine':
        u = np.sin(2*np.pi*np.outer(g.uniform(0.001, .2, nu), t)
                   + g.uniform(0, 6, (nu, 1)))
    elif spec["shape"] == 'dc':
        u = np.tile(g.uniform(-1, 1, (nu, 1)), (1, N))
    else:
        u = np.zeros((nu, N))
    u = u*spec["amp"]
    if spec.get("spikes"):
        # where programs that work by blocks have their seams
        edges = sorted(i for i in {2**k+d for k in range(4, 14)
                                   for d in (-1, 0, 0)} | {0, N-1} if i < N)
        for _ in range(spec["spikes"]):
            i = g.integers(N)
            if spec.get("at") == 'edge':
                i = edges[g.integers(len(edges))]
            u[g.integers(nu), i] = spec["spike"]*(
                1 if g.random() < .5 else -1)
    if spec.get("grid"):
        u = np.round(u*spec["grid"])/spec["grid"]
    if m.kind == 'exact':
        u = np.round(u*16)/16.
        u = np.clip(u, -2.**34, 2.**34)
    return u


# ---- sessions ----------------------------------------------------------

def gen_session(r, kinds, long_ok=True, max_segs=6, faults=True):
    m = gen_model(r, kinds)
    u = gen_input(r, long_ok)
    segs = []
    for _ in range(r.randint(1, max_segs)):
        s = {"len": r.choice([0, 1, 1, 2, 3, 7, 20, 50, 10**6] if
                             u["N"] < 200 else
                             [1, 3, 50, 100, 128, 300, 1000, 10**6]),
             "backend": r.choice(BACKENDS),
             "xn": r.random() < .6, "xmax": r.random() < .6,
             "y": r.random() < .5,
             "u": r.choice(['array', 'array', 'list', 'fortran', 'strided',
                            'reversed', 'readonly', 'view', 'bigendian',
                            'matrix', 'single', 'wide', 'int', 'small']),
             "x0": r.choice(['array', 'list', 'strided', 'column',
                             'readonly', 'raw', 'bigendian', 'single',
                             'int', 'small']),
             "nl": r.randint(0, 35),
             "via_default": r.random() < .15,
             "keep": r.choice([None, None, None, .0, .3, .8])}
        if faults and r.random() < .35:
            s["fault"] = {"kind": r.choice(['lost', 'interrupt', 'memory',
                                            'badcall']),
                          "pos": round(r.random(), 4),
                          "retry": r.choice([None]+BACKENDS)}
        segs.append(s)
    last = {"len": 10**6, "backend": r.choice(BACKENDS), "xn": True,
            "xmax": True, "y": True, "u": 'array', "x0": 'array', "nl": 1,
            "via_default": False, "keep": None}
    segs.append(last)
    return {"model": m, "u": u, "x0": r.choice(
        ['zero', 'zero', 'scalar0', 'rand']), "segs": segs}


def initial(spec, m):
    g = rng(spec["model"]["s"], 3)
    x = g.integers(-8, 9, m.n)/8.
    if spec["x0"] in ('zero', 'scalar0'):
        x = x*0
    return x


def estimated_events(backend, n):
    return 60+9*n if backend == 'scipy' else 9


class Recorder(object):
    """Outputs of one session, as accepted by its (simulated) application."""

    def __init__(self, m, N):
        self.v = np.full((m.nq, N), np.nan)
        self.y = np.full((m.nq, N), np.nan)
        self.x = np.full((m.n, N), np.nan)    # state after sample i
        self.done = 0
        self.backend = [None]*N
        self.segs = []
        self.kept = []                        # (result, copy)


def call(m, u, x0, seg, backend, buffers=None):
    """Issue simulateDSM the way the segment says."""
    from pydsm.delsig import simulateDSM
    if seg["via_default"]:
        old = simulateDSM.default_options['backend']
        simulateDSM.default_options['backend'] = backend
        try:
            return simulateDSM(u, m.arg2(buffers), m.nlev_arg(seg["nl"]),
                               x0, seg["xn"], seg["xmax"], seg["y"])
        finally:
            simulateDSM.default_options['backend'] = old
    return simulateDSM(u, m.arg2(buffers), m.nlev_arg(seg["nl"]), x0,
                       seg["xn"], seg["xmax"], seg["y"], backend=backend)


def whole(m, u, x0, backend):
    from pydsm.delsig import simulateDSM
    uu = u[0].copy() if m.nu == 1 else u.copy()
    v, x, xm, y = simulateDSM(uu, m.arg2(), m.nlev_arg(2), x0.copy(), True,
                              True, True, backend=backend)
    N = u.shape[1]
    return (v.reshape(m.nq, N), x.reshape(m.n, N), xm.reshape(m.n),
            y.reshape(m.nq, N))


def bad_call(run, m, u, x0, k):
    """Calls that must be refused, and leave no trace."""
    from pydsm.delsig import simulateDSM
    args = [(u, m.arg2(), 2, x0, 'none'),
            (u, m.arg2(), m.nlev_arg(2), np.zeros(m.n+3), 'scipy_blas'),
            (u, np.zeros((m.n+1, m.n+7+m.nu)), m.nlev_arg(2), x0, 'cblas'),
            ([[['x']]], m.arg2(), m.nlev_arg(2), x0, 'scipy_blas')][k % 4]
    try:
        simulateDSM(args[0], args[1], args[2], args[3], backend=args[4])
    except Exception as e:
        return type(e).__name__
    return 'accepted'


def play(run, sid, spec, rec, plan_switches=(), buffers=None):
    """Body of the simulated thread of one session."""
    k = run.k
    m = Model(spec["model"])
    U = make_input(spec["u"], m)
    N = U.shape[1]
    init = initial(spec, m)
    pos = 0
    ckpt = init.copy()                        # durable state
    raw = 0 if spec["x0"] == 'scalar0' else init.copy()
    for gi, seg in enumerate(spec["segs"]):
        if pos >= N and seg["len"]:
            break
        n = min(seg["len"], N-pos)
        fault = seg.get("fault")
        attempts = [seg["backend"]]
        if fault:
            attempts.append(fault["retry"] or seg["backend"])
        for ai, backend in enumerate(attempts):
            first = fault is not None and ai == 0
            u = U[:, pos:pos+n]
            uu = u[0] if m.nu == 1 and seg["nl"] % 2 else u
            if seg["u"] == 'view':
                uarg = uu
            elif n == 0:
                uarg = uu.copy()
            elif buffers is not None and seg["u"] == 'array':
                uarg = refill(buffers, 'u', uu)
            else:
                uarg = form(uu, seg["u"])
            if seg["x0"] == 'raw':
                x0arg = raw
            else:
                x0arg = form(ckpt, seg["x0"])
            trig = []
            for s in plan_switches:
                if s["g"] == gi:
                    trig.append({"do": "switch", "to": s["to"], "at": 1+int(
                        s["pos"]*estimated_events(backend, n))})
            if first and fault["kind"] in ('interrupt', 'memory'):
                trig.append({"do": "raise", "exc": fault["kind"],
                             "at": 1+int(fault["pos"]*estimated_events(
                                 backend, n))})
            ctx = kernel.OpCtx('simulateDSM', trig,
                               budget=5000000+400*n)
            ubefore = np.array(uarg, dtype=float, copy=True)
            xbefore = np.array(x0arg, dtype=float, copy=True)
            k.emit('t%d' % sid, 'segment', gi, 'from', pos, 'n', n, backend)
            if first and fault["kind"] == 'badcall':
                what = bad_call(run, m, uarg, x0arg, int(fault["pos"]*100))
                k.fault('rejected_call')
                k.emit('badcall', what)
                continue
            res = k.call(ctx, lambda: call(m, uarg, x0arg, seg, backend,
                                           buffers))
            run.events += ctx.n
            if not np.array_equal(ubefore, np.asarray(uarg, dtype=float)):
                run.violate('input_modified', session=sid, segment=gi,
                            backend=backend, what='input')
            if not np.array_equal(xbefore, np.asarray(x0arg, dtype=float)):
                run.violate('checkpoint_modified', session=sid, segment=gi,
                            backend=backend)
            if res[0] == 'exc':
                if any(e is res[1] for e in ctx.injected):
                    k.emit('t%d' % sid, 'crash')
                    run.state('crash', backend, m.kind, m.n)
                    continue
                run.violate('unexpected_exception', session=sid, segment=gi,
                            backend=backend, exc='%s: %s' % (
                                type(res[1]).__name__, res[1]))
                return
            if first and fault["kind"] == 'lost':
                k.fault('segment_lost')
                continue
            v, x, xm, y = res[1]
            why = shapes(m, n, seg, v, x, xm, y)
            if why:
                run.violate('malformed_result', session=sid, segment=gi,
                            backend=backend, what=why)
                return
            break
        else:
            continue                          # nothing accepted
        if n == 0:
            if not seg["xn"]:
                ckpt = np.array(x, dtype=float).reshape(m.n)
                raw = x
            continue
        rec.kept += [(a, np.array(a, copy=True)) for a in (v, x, xm, y)]
        v = v.reshape(m.nq, n)
        rec.v[:, pos:pos+n] = v
        if seg["y"]:
            rec.y[:, pos:pos+n] = y.reshape(m.nq, n)
        if seg["xmax"]:
            xm = np.asarray(xm).reshape(m.n).copy()
        start = pos
        if seg["xn"]:
            X = x.reshape(m.n, n)
            rec.x[:, pos:pos+n] = X
            keep = n
            if seg["keep"] is not None:
                # only the first samples survive; the rest is run again
                keep = 1+int(seg["keep"]*n)
                keep = min(n, max(1, keep))
                if keep < n:
                    k.fault('crash_after_checkpoint')
            raw = X[:, keep-1]                # a strided view
            ckpt = X[:, keep-1].copy()
            pos += keep
        else:
            raw = x
            ckpt = np.array(x, dtype=float).reshape(m.n)
            rec.x[:, pos+n-1] = ckpt
            pos += n
        for i in range(start, start+n):
            rec.backend[i] = backend
        own = None
        if seg["xn"] and seg["xmax"]:
            own = np.maximum(np.abs(xbefore.reshape(-1) if np.ndim(xbefore)
                                    or m.n == 1 else np.zeros(m.n)),
                             np.max(np.abs(X), axis=1))
        rec.segs.append((start, n, backend, xm if seg["xmax"] else None,
                         own))
        run.state(m.kind, m.n, m.nu, m.nq, backend, seg["xn"], seg["xmax"],
                  seg["y"], seg["u"], seg["x0"])
    rec.done = pos


def shapes(m, n, seg, v, x, xm, y):
    """Are the results laid out as documented? None or the reason."""
    for name, z in (('v', v), ('xn', x), ('xmax', xm), ('y', y)):
        if not isinstance(z, np.ndarray):
            return '%s is not an array' % name
        if z.dtype != np.float64:
            return '%s has type %s' % (name, z.dtype)
    if v.size != m.nq*n:
        return 'v has %d samples' % v.size
    if m.nq > 1 and n > 1 and v.shape != (m.nq, n):
        return 'v has shape %s' % (v.shape,)
    if x.size != (m.n*n if seg["xn"] else m.n):
        return 'xn has size %d' % x.size
    if seg["xn"] and m.n > 1 and n > 1 and x.shape != (m.n, n):
        return 'xn has shape %s' % (x.shape,)
    if xm.size != (m.n if seg["xmax"] else 0):
        return 'xmax has size %d' % xm.size
    if y.size != (m.nq*n if seg["y"] else 0):
        return 'y has size %d' % y.size
    if seg["y"] and m.nq > 1 and n > 1 and y.shape != (m.nq, n):
        return 'y has shape %s' % (y.shape,)
    return None


def gen_switches(r, sessions, n):
    out = []
    for _ in range(n):
        s = r.randrange(len(sessions))
        out.append({"s": s, "g": r.randrange(len(sessions[s]["segs"])),
                    "pos": round(r.random(), 4), "to": r.randint(0, 3)})
    return out


def run_sessions(run, plan):
    """Play all the sessions of the plan; returns their recorders."""
    recs = []
    bodies = []
    buffers = {} if plan.get("refill") and not plan["switches"] else None
    for sid, spec in enumerate(plan["sessions"]):
        m = Model(spec["model"])
        rec = Recorder(m, spec["u"]["N"])
        recs.append(rec)
        sw = [s for s in plan["switches"] if s["s"] == sid]

        def body(t, sid=sid, spec=spec, rec=rec, sw=sw):
            play(run, sid, spec, rec, sw, buffers)
        bodies.append(body)
    if len(bodies) == 1:
        from .kernel import solo
        solo(run.k, bodies[0])
    else:
        run.k.run_threads(bodies)
    for sid, rec in enumerate(recs):
        if any(not np.array_equal(a, b, equal_nan=True)
               for a, b in rec.kept):
            run.violate('result_modified_later', session=sid)
    for rec in recs:
        run.k.emit('outputs', digest(rec.v), digest(rec.x), digest(rec.y))
    return recs


def digest(a):
    from . import ops
    return ops.digest(a)


# ---- reference model ---------------------------------------------------

def quantize(y, nlev):
    """Nearest level (ties upward), saturating at the outermost levels."""
    lv = np.asarray(nlev, dtype=float).reshape(-1, 1)
    even = (lv % 2) == 0
    q = np.where(even, 2*np.floor(y/2)+1, 2*np.floor((y+1)/2))
    return np.clip(q, 1-lv, lv-1)


def near_tie(y, nlev, tol):
    """Distance from a decision threshold below tol?"""
    lv = np.asarray(nlev, dtype=float).reshape(-1, 1)
    even = (lv % 2) == 0
    d = np.where(even, np.abs(y-2*np.round(y/2)),
                 np.abs(y-1-2*np.round((y-1)/2)))
    return (d < tol) & (np.abs(y) < lv+tol)
