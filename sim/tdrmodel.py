"""Families of parametrised convex programs, and their fresh solution.

A family is built over an environment that gives its variables and its
parameters.  The same builder is used with parameter objects (histories) and
with plain numbers (the fresh program that a history is compared with).
"""

import numpy as np

from . import ops

OPTIONS = {"maxiters": [60, 100, 150, 60, 100, 2, 4, 6],
           "abstol": [1e-7, 1e-8, 3e-8], "reltol": [1e-6, 1e-7],
           "feastol": [1e-6, 1e-7, 3e-7]}

# parameters: name -> (shape, attribute, values); all families draw from here
PARAMS = {
    'a': (1, None, [-1., -.3, 0., .2, .7, 1., 2.5]),
    'b': (1, None, [-2., -.5, 0., .4, 1., 1.5]),
    'pos': (1, 'nonnegative', [0., .1, .5, 1., 2., 3.]),
    'neg': (1, 'nonpositive', [-3., -1., -.4, 0.]),
    't': (1, None, [0., 5e-13, -4e-13, 9e-13, 1.5e-12, -3e-12]),
    'v': (2, None, [-1.5, -.2, 0., .3, 1., 2.]),
    'w': (2, 'nonnegative', [0., .25, 1., 1.7])}


def values(r, name):
    n, _, vals = PARAMS[name]
    return r.choice(vals) if n == 1 else [r.choice(vals) for _ in range(n)]


def _f(name, params, unique=True):
    def d(f):
        FAMILIES[name] = (f, params, unique)
        return f
    return d


FAMILIES = {}


def numeric(c, p):
    return c.matrix(np.array(p, dtype=float).reshape(-1, 1)) \
        if isinstance(p, (list, tuple)) else p


def col(c, p, n=2):
    """A column out of a vector parameter."""
    return numeric(c, p)


# each builder returns (action pair, constraints)

@_f('norm2', ['v', 'a'])
def _(c, x, p, fun):
    return c.minimize(c.norm2(x-col(c, p['v']))), [c.leq(x[0, 0], p['a']),
                                                   c.geq(x[1, 0], -.1)]


@_f('norm1', ['v', 'b'])
def _(c, x, p, fun):
    return c.minimize(c.norm1(x-col(c, p['v']))), [c.leq(x[0, 0], p['b'])]


@_f('norminf', ['a', 'b'], unique=False)
def _(c, x, p, fun):
    return c.minimize(c.norm_inf(x)), [c.geq(x[0, 0]+x[1, 0], p['a']),
                                       c.leq(x[0, 0]-x[1, 0], p['b'])]


@_f('quad', ['v', 'pos'])
def _(c, x, p, fun):
    Q = c.matrix(np.array([[2., .5], [.5, 1.]]))
    return (c.minimize(c.quad_form(x-col(c, p['v']), Q)),
            [c.leq(x, p['pos'])])


@_f('square', ['a', 'pos', 'neg'])
def _(c, x, p, fun):
    return (c.minimize(c.square(x[0, 0]-p['a'])+c.square(x[1, 0]+1.)
                       + p['pos']*x[0, 0]),
            [c.geq(x[1, 0], p['neg'])])


@_f('scaled', ['pos', 'v'])
def _(c, x, p, fun):
    # a parameter times a convex function
    return (c.minimize(p['pos']*c.abs(x[0, 0])+c.square(x[0, 0]-1.)
                       + c.norm2(x-col(c, p['v']))), [])


@_f('lp', ['v'], unique=False)
def _(c, x, p, fun):
    return (c.maximize(x[0, 0]+2.*x[1, 0]),
            [c.leq(x, col(c, p['v'])), c.geq(x, -2.),
             c.leq(x[0, 0]+x[1, 0], 1.)])


@_f('lp2', ['v', 'b'], unique=False)
def _(c, x, p, fun):
    # parameters as coefficients: may be infeasible or unbounded
    v = p['v']
    v0, v1 = (v[0], v[1]) if isinstance(v, (list, tuple)) \
        else (v[0, 0], v[1, 0])
    return (c.minimize(v0*x[0, 0]+v1*x[1, 0]),
            [c.geq(x[0, 0], -1.), c.leq(x[0, 0], p['b']),
             c.leq(x[1, 0], 2.), c.geq(x[1, 0], p['b'])])


@_f('unbounded', ['a'], unique=False)
def _(c, x, p, fun):
    return (c.minimize(x[0, 0]+x[1, 0]),
            [c.leq(x[0, 0]+x[1, 0], p['a']), c.geq(x[0, 0], -1.)])


@_f('equal', ['a', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(x)),
            [c.equals(x[0, 0]+2.*x[1, 0], p['a']),
             c.leq(x[0, 0], p['b'])])


@_f('max', ['v'], unique=False)
def _(c, x, p, fun):
    return (c.minimize(c.max(x)),
            [c.geq(x, col(c, p['v'])), c.geq(x[0, 0], .5)])


@_f('log', ['pos', 'b'])
def _(c, x, p, fun):
    return (c.maximize(c.log(x[0, 0])-(p['pos']+.5)*x[0, 0]
                       - c.square(x[1, 0]-p['b'])), [])


@_f('exp', ['pos', 'a'])
def _(c, x, p, fun):
    return (c.minimize(c.exp(x[0, 0])-(p['pos']+.5)*x[0, 0]
                       + c.square(x[1, 0]-p['a'])), [])


@_f('tiny', ['t', 'a'])
def _(c, x, p, fun):
    # parameters in other units
    return (c.minimize(c.square(x[0, 0]-1e12*p['t'])
                       + c.square(x[1, 0]-p['a'])),
            [c.geq(x[0, 0]+x[1, 0], 1e12*p['t'])])


@_f('sqrt', ['pos', 'b'])
def _(c, x, p, fun):
    return (c.maximize(c.sqrt(x[0, 0])-c.square(x[1, 0])),
            [c.leq(x[0, 0], p['pos']+.1), c.equals(x[1, 0], p['b'])])


@_f('geo', ['w'])
def _(c, x, p, fun):
    w = p['w']
    return (c.maximize(c.geo_mean(x)),
            [c.leq(x, col(c, w)), c.leq(x[0, 0]+x[1, 0], 1.5)])


@_f('qol', ['pos', 'v'])
def _(c, x, p, fun):
    return (c.minimize(c.quad_over_lin(x-col(c, p['v']), p['pos']+1.)
                       + c.square(x[0, 0])), [])


@_f('huber', ['a', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.huber(x[0, 0]-p['a'], 1.)
                       + c.square(x[1, 0]-p['b'])
                       + .25*c.square(x[0, 0])), [])


@_f('sdp', ['a'])
def _(c, x, p, fun):
    return (c.minimize(x[0, 0]+x[1, 0]),
            [c.belongs(c.vstack([c.hstack([x[0, 0], p['a']]),
                                 c.hstack([p['a'], x[1, 0]])]),
                       c.semidefinite_cone)])


@_f('soc', ['a', 'pos'])
def _(c, x, p, fun):
    return (c.minimize(x[0, 0]),
            [c.belongs(c.vstack([x[1, 0]-p['a'], x[0, 0]]),
                       c.second_order_cone),
             c.equals(x[1, 0], p['pos'])])


@_f('lse', ['v'], unique=True)
def _(c, x, p, fun):
    return (c.minimize(c.log_sum_exp(x)+c.square(x[0, 0]-x[1, 0])*.5),
            [c.geq(x, col(c, p['v']))])


@_f('power', ['pos', 'a'])
def _(c, x, p, fun):
    return (c.minimize(c.power_abs(x[0, 0]-p['a'], 2.)
                       + c.power_pos(x[1, 0], 2.)+.1*c.abs(x[1, 0])),
            [c.geq(x[0, 0]+x[1, 0], p['pos'])])


@_f('partial', ['a', 'b', 'pos'])
def _(c, x, p, fun):
    # a program used as a function in another one
    return (c.minimize(fun(x[0, 0])+c.square(x[0, 0]-p['a'])
                       + c.square(x[1, 0]-p['b'])), [])


def sym(c, x, a):
    return c.vstack([c.hstack([x[0, 0], a]), c.hstack([a, x[1, 0]])])


@_f('lmax', ['a', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.lambda_max(sym(c, x, p['a']))
                       + .5*c.square(x[0, 0])+c.square(x[1, 0]-p['b'])), [])


@_f('lmin', ['a', 'b'])
def _(c, x, p, fun):
    return (c.maximize(c.lambda_min(sym(c, x, p['a']))
                       - c.square(x[0, 0]-1.)-c.square(x[1, 0]-p['b'])), [])


@_f('nuclear', ['v', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.nuclear_norm(c.hstack([x, col(c, p['v'])]))
                       + c.square(x[0, 0]-1.)+c.square(x[1, 0]-p['b'])), [])


@_f('det', ['a', 'pos'])
def _(c, x, p, fun):
    return (c.maximize(c.det_rootn(sym(c, x, p['a']))
                       - .1*c.square(x[0, 0]-x[1, 0])),
            [c.leq(x[0, 0]+x[1, 0], p['pos']+6.)])


@_f('kl', ['w', 'a'])
def _(c, x, p, fun):
    return (c.minimize(c.kl_div(x, col(c, p['w'])+.5)
                       + .2*c.square(x[0, 0]-p['a'])), [c.geq(x, .05)])


@_f('kl2', ['pos'])
def _(c, x, p, fun):
    return (c.minimize(c.kl_div(x[0, 0], x[1, 0])
                       + c.square(x[0, 0]-p['pos']-1.)
                       + c.square(x[1, 0]-1.)), [])


@_f('lognorm', ['a', 'b'])
def _(c, x, p, fun):
    return (c.maximize(c.log_norm_cdf(x[0, 0]-p['a'])-c.square(x[0, 0])
                       - c.square(x[1, 0]-p['b'])), [])


@_f('min', ['v'])
def _(c, x, p, fun):
    return (c.maximize(c.min(x-col(c, p['v']))-c.square(x[0, 0])
                       - .5*c.square(x[1, 0])), [])


@_f('power_p', ['a', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.power_p(x[0, 0], 3.)-2.*x[0, 0]
                       + c.square(x[1, 0]-p['a'])), [c.geq(x[0, 0], p['b'])])


@_f('power_abs', ['a', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.power_abs(x[0, 0]-p['a'], 3.)+.1*c.square(x[0, 0])
                       + c.square(x[1, 0]-p['b'])), [])


@_f('trace', ['v'], unique=False)
def _(c, x, p, fun):
    M = c.reshape(c.vstack([x, col(c, p['v'])]), (2, 2))
    return (c.minimize(c.square(c.trace(M)-1.)
                       + .1*c.sum(c.square(x))), [])


@_f('diag', ['v', 'a'])
def _(c, x, p, fun):
    Q = c.matrix(np.array([[2., .5], [.5, 1.]]))
    return (c.minimize(c.norm2(c.diag(c.diag(x)*Q)-col(c, p['v']))
                       + .1*c.square(x[0, 0])), [c.leq(x[0, 0], p['a'])])


@_f('matrix', ['v', 'b'])
def _(c, x, p, fun):
    Q = c.matrix(np.array([[2., .5], [.5, 1.]]))
    return (c.minimize(c.norm2(Q*x-col(c, p['v']))+.1*c.norm1(x)),
            [c.leq(x.T*col(c, [1., 2.]), p['b']), c.geq(Q[0, :]*x, -3.)])


@_f('outer', ['w', 'v', 'neg'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(x+col(c, p['w'])*x[0, 0]-col(c, p['v']))
                       + .1*c.sum(c.square(x))), [c.geq(x[0, 0], p['neg'])])


@_f('geocone', ['pos'], unique=False)
def _(c, x, p, fun):
    return (c.maximize(x[0, 0]),
            [c.belongs(c.vstack([x[1, 0], p['pos']+1., x[0, 0]]),
                       c.geo_mean_cone), c.leq(x[1, 0], p['pos']+1.)])


@_f('expcone', ['a'])
def _(c, x, p, fun):
    return (c.minimize(x[0, 0]),
            [c.belongs(c.vstack([x[1, 0], 1., x[0, 0]]), c.exp_cone),
             c.geq(x[1, 0], p['a']), c.leq(x[1, 0], 3.)])


@_f('own', ['a', 'v'])
def _(c, x, p, fun):
    # variables that belong to this program only
    z = c.variable(2, 2, 'symmetric', name='z')
    return (c.minimize(c.norm2(z*col(c, [1., -1.])-col(c, p['v']))
                       + c.square(x[0, 0]-z[0, 1])+c.square(x[1, 0])
                       + .1*c.sum(c.square(z))+.1*c.square(x[0, 0])),
            [c.geq(c.trace(z), p['a'])])


@_f('equals', ['v', 'a'])
def _(c, x, p, fun):
    z = c.variable(2, 1, name='x')
    return (c.minimize(c.norm2(z)+c.square(x[0, 0]-p['a'])),
            [c.equals(x-z, col(c, p['v']))])


@_f('partial2', ['a', 'pos'])
def _(c, x, p, fun):
    # the same function twice, once of a parameter
    return (c.minimize(fun(x[0, 0]-p['a'])+fun(p['pos'])
                       + c.square(x[0, 0])+c.square(x[1, 0]-p['a'])), [])


@_f('maxpar', ['w', 'a'], unique=False)
def _(c, x, p, fun):
    # parameters that decide the curvature
    return (c.minimize(p['w'][0]*c.square(x[0, 0]-1.)
                       + p['w'][1]*c.abs(x[1, 0]-p['a'])
                       if isinstance(p['w'], (list, tuple)) else
                       p['w'][0, 0]*c.square(x[0, 0]-1.)
                       + p['w'][1, 0]*c.abs(x[1, 0]-p['a'])),
            [c.leq(x, 3.), c.geq(x, -3.)])


# expressions of parameters

@_f('coef', ['v', 'a', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(x - col(c, p['v']))),
            [c.leq(p['a'] * x[0, 0] + x[1, 0], p['b'])])


@_f('prod', ['a', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.square(x[0, 0] - p['a'] * p['b']) +
                c.square(x[1, 0])),
            [])


@_f('diff', ['a', 'b', 'v'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(x - col(c, p['v']))),
            [c.leq((p['a'] - p['b']) * x[0, 0], 1.0)])


@_f('neg', ['a', 'v'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(x + col(c, p['v']))),
            [c.leq(-x[0, 0], -p['a'])])


@_f('mat', ['v', 'w'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(c.hstack([col(c, p['v']), col(c,
                p['w'])]) * x - col(c, p['v'])) + 0.1 * c.sum(c.square(x))),
            [])


@_f('inner', ['v', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.sum(c.square(x))),
            [c.geq(col(c, p['v']).T * x, p['b'])])


@_f('inner2', ['v', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.sum(c.square(x))),
            [c.geq(x.T * col(c, p['v']), p['b'])])


@_f('sumv', ['v'])
def _(c, x, p, fun):
    return (c.minimize(c.sum(c.square(x))),
            [c.geq(c.sum(x), c.sum(col(c, p['v'])))])


@_f('scalarvec', ['a'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(p['a'] * x - c.matrix(np.array([[1.0],
                [2.0]]))) + 0.1 * c.sum(c.square(x))),
            [])


@_f('diagpar', ['w', 'a'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(c.diag(col(c, p['w'])) * x - 1.0) +
                0.1 * c.sum(c.square(x - p['a']))),
            [])


@_f('nested', ['pos', 'a'])
def _(c, x, p, fun):
    return (c.minimize(p['pos'] * c.max(c.vstack([c.abs(x[0,
                0] - p['a']), c.square(x[1, 0] - p['a'])])) +
                0.1 * c.sum(c.square(x))),
            [])


@_f('lin', ['a', 'b'], unique=False)
def _(c, x, p, fun):
    return (c.minimize(p['a'] * x[0, 0] + p['b'] * x[1, 0]),
            [c.leq(c.norm2(x), 1.0)])


@_f('eqp', ['a', 'b', 'v'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(x - col(c, p['v']))),
            [c.equals(p['a'] * x[0, 0] + p['b'] * x[1, 0], p['a'])])


@_f('eqpv', ['a', 'b'])
def _(c, x, p, fun):
    return (c.minimize(c.norm2(x)),
            [c.equals(2.0 * p['a'] * x[0, 0] + 3.0 * (p['b'] * x[1, 0] +
             1.0), p['a'] + 3.0)])


@_f('posprod', ['pos', 'v'])
def _(c, x, p, fun):
    return (c.minimize(p['pos'] * (c.square(x[0, 0] - 1.0) +
                2.0 * c.abs(x[1, 0])) + c.norm2(x - col(c, p['v']))),
            [])


@_f('minusfun', ['a', 'v'])
def _(c, x, p, fun):
    return (c.maximize(-c.norm2(x - col(c,
                p['v'])) - 2.0 * c.square(x[0, 0] - p['a'])),
            [])


def function(c, g=2.):
    """A program with a formal argument: the Huber function, nearly.

    The number g may be a parameter too.
    """
    y = c.variable(name='y')
    z = c.variable(name='z')
    return c.program(c.minimize(c.square(y-z)+g*c.abs(z)),
                     [c.leq(z, g+1.5)], [y])


# ---- the fresh program ----------------------------------------------------

def solution(obj, valid, x):
    v = [float(x[i, 0].value) for i in range(2)]
    return ('solved', float(obj), bool(valid), tuple(v))


@ops.op('tdr_fresh', lambda r: None, tags=('tdr', 'hidden'))
def _(a, env):
    from pydsm import cvxpy_tdr as c
    f = FAMILIES[a["fam"]][0]
    x = c.variable(2, 1, name='x')
    pair, cons = f(c, x, a["p"], function(c, a["p"].get('pos', 2.)))
    p = c.program(pair, cons)
    p.options.update(a["o"])
    obj, valid = p.solve(True, True)
    return solution(obj, valid, x)


@ops.op('tdr_fresh_call', lambda r: None, tags=('tdr', 'hidden'))
def _(a, env):
    from pydsm import cvxpy_tdr as c
    return ('called', float(function(c, a["g"])(a["y"])))
