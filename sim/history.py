"""Shared pieces of the properties about histories of operations."""

import copy
import warnings

import numpy as np

from . import kernel, ops
from .run import budget, matches, triggers

CHEAP = ops.names('cheap')
CALLBACK = ops.names('cheap', 'callback')
MEDIUM = ops.names('medium')
TDR = ops.names('tdr', no=('hidden',))
SOLVER = [n for n in ops.names('solver') if n not in TDR]


def pool(r, prop, seed_tag, names, k):
    """Pick from a small fixed pool of operations (their references cost)."""
    import hashlib
    import random
    n = r.randrange(k)
    h = hashlib.blake2b(('%s/%s/%d' % (prop, seed_tag, n)).encode(),
                        digest_size=8).digest()
    q = random.Random(int.from_bytes(h, 'big'))
    name = names[n % len(names)]
    return {"f": name, "a": stratified(name, q, n//len(names))}


def stratified(name, q, i):
    """Arguments drawn so that all the modelers have their share."""
    a = ops.GEN[name](q)
    if "mod" in a:
        for _ in range(200):
            mods = ops.MODS.get(name, ops.MODELERS)
            if a["mod"] == mods[i % len(mods)]:
                break
            a = ops.GEN[name](q)
    if name == 'solver_aliases':
        a["k"] = ops.ALIASES[i % len(ops.ALIASES)]
    return a


def pick(r, what, seed_tag, tier):
    """A random operation of a class of costs."""
    if what == 'cheap':
        return ops.gen(r, CHEAP)
    if what == 'plot':
        return ops.gen(r, ['plotPZ'])
    if what == 'bad':
        return ops.gen(r, ['bad_call'])
    if what == 'callback':
        return ops.gen(r, CALLBACK)
    k = 4 if tier == 'thorough' else 1
    if what == 'medium':
        return pool(r, 'medium', seed_tag, MEDIUM, 16*k)
    if what == 'solver':
        return pool(r, 'solver', seed_tag, SOLVER, 48*k)
    return pool(r, 'tdr', seed_tag, TDR, 40*k)


def variant(r, op):
    """The same function with some arguments changed."""
    new = ops.GEN[op["f"]](r)
    a = dict(op["a"])
    keys = sorted(set(a) & set(new))
    for k in r.sample(keys, min(len(keys), r.choice([1, 1, 2]))):
        a[k] = new[k]
    return {"f": op["f"], "a": a}


# arguments that only make sense together
TIED = {'simulateDSM': (('form', 'm', 'nlev'),),
        'clans': (), 'synthesizeNTF': (('n', 'f0'),),
        'ds_synNTFobj1': (('h', 'f0'),),
        'ntf_fir_minmax_bands': ()}


def safe_variant(r, op):
    v = variant(r, op)
    if op["f"] in TIED or 'slow' in ops.TAGS[op["f"]]:
        new = ops.GEN[op["f"]](r)
        for group in TIED.get(op["f"], ()):
            if any(v["a"][k] != op["a"][k] for k in group):
                for k in group:
                    v["a"][k] = new[k]
    return v


def floats(x, path=()):
    """Where the real numbers of some arguments are."""
    if isinstance(x, float):
        return [path] if x else []
    it = sorted(x.items()) if isinstance(x, dict) else \
        enumerate(x) if isinstance(x, list) else ()
    return [p for k, v in it for p in floats(v, path+(k,))]


def near(r, op):
    """The same call, with slightly different numbers."""
    a = copy.deepcopy(op["a"])
    where = floats(a)
    if not where:
        return safe_variant(r, op)
    eps = r.choice([1e-7, 1e-6, 1e-5, 1e-4, 1e-3])
    if r.random() < .6:
        where = [r.choice(where)]
    for p in where:
        x = a
        for k in p[:-1]:
            x = x[k]
        x[p[-1]] *= 1-eps
    return {"f": op["f"], "a": a}


class ArrayLike(object):
    """An argument that becomes an array when the package asks for it."""

    def __init__(self, x, hook):
        self.x, self.hook = x, hook

    def __array__(self, dtype=None, copy=None):
        self.hook()
        a = np.array(self.x, dtype=dtype)
        return a


def clear_refs(refs):
    return refs


def context(run, op, ref, specs, **kw):
    trig = triggers(ref, specs)
    return kernel.OpCtx(op["f"], trig, budget=budget(ref), **kw)


def compare(run, op, res, ref, kind, **detail):
    """Report a result that differs from the one obtained alone."""
    d = matches(res, ref, op["f"])
    if d:
        run.violate(kind, op=op, difference=d, **detail)
        return False
    return True


def norm_seams(seams):
    return [(n, sorted((k, repr(v)) for k, v in o.items()))
            for n, o in seams]


def compare_seams(run, op, ctx, ref, kind, **detail):
    a, b = norm_seams(ctx.seams), norm_seams(ref["seams"])
    if a != b:
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                run.violate(kind, op=op, seam=i, got=x, alone=y, **detail)
                return False
        run.violate(kind, op=op, calls=len(a), alone=len(b), **detail)
        return False
    return True


def check_functions(run, **where):
    """The functions returned by earlier calls still do the same."""
    for op, f, points, v in run.functions[-8:]:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                w = [ops._canon(f(p)) for p in points]
            except Exception as e:
                w = repr(e)
        d = ops.same(tuple(v), tuple(w)) if isinstance(w, list) else w
        if d:
            run.violate('returned_function_changed', op=op, difference=d,
                        **where)
            return False
    return True
