"""Generic reduction of plans (JSON values)."""

import copy


def _get(p, path):
    for k in path:
        p = p[k]
    return p


def _with(p, path, val):
    p = copy.deepcopy(p)
    if not path:
        return val
    _get(p, path[:-1])[path[-1]] = val
    return p


def walk(p, path=()):
    yield path, p
    if isinstance(p, dict):
        for k in p:
            for x in walk(p[k], path+(k,)):
                yield x
    elif isinstance(p, list):
        for i, v in enumerate(p):
            for x in walk(v, path+(i,)):
                yield x


def lists(plan, keys, least=0):
    """Drop chunks, then elements, of the lists found under the keys."""
    for path, v in walk(plan):
        if path and path[-1] in keys and isinstance(v, list):
            n = len(v)
            if n <= least:
                continue
            c = n
            while c >= 1:
                for i in range(0, n, c):
                    w = v[:i]+v[i+c:]
                    if least <= len(w) < n:
                        yield _with(plan, path, w)
                c //= 2


def nulls(plan, keys):
    for path, v in walk(plan):
        if path and path[-1] in keys and v:
            yield _with(plan, path, None)


def falses(plan, keys):
    for path, v in walk(plan):
        if path and path[-1] in keys and v is True:
            yield _with(plan, path, False)


def ints(plan, keys, least=1):
    for path, v in walk(plan):
        if path and path[-1] in keys and isinstance(v, int) \
                and not isinstance(v, bool) and v > least:
            for w in sorted({least, v//2, v-1}):
                if least <= w < v:
                    yield _with(plan, path, w)


def zeros(plan, keys):
    for path, v in walk(plan):
        if path and path[-1] in keys and isinstance(v, float) and v != 0.:
            yield _with(plan, path, 0.)


def values(plan, key, simplest):
    for path, v in walk(plan):
        if path and path[-1] == key and v != simplest:
            yield _with(plan, path, simplest)
