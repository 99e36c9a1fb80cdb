"""Quadrature states integrate the quadrature function."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..gendae import Oracle, close, order_tol, evaluate, gen_time, gen_values, scheme_function, used
from .c19 import gen_scheme

RULE = 'one distinct observation per (kind and sizes of the model, grid size, order, method, compared quantity)'


def quadratures(ctx):
    model, t, order, method, tdp_fun, tdp = gen_scheme(ctx, quad=ctx.pick([1, 1, 2, 3]))
    N = len(t) - 1
    ctx.log('%s, t=%s, %s %d', model.describe(), list(t), method, order)
    s = ce.CollocationScheme(used(ctx, model, ce.CollocationScheme, t, order, method, tdp_fun), t=t, order=order, method=method, tdp_fun=tdp_fun, expand=ctx.chance(0.7))
    orc = Oracle(model, t, order, method, tdp)
    f = scheme_function(s)
    for _ in range(2):
        v = gen_values(ctx, model, N, order, scale=ctx.pick([1., 1., 4.]))
        got, want = evaluate(f, v), orc(**v)
        for k in ('quad', 'q', 'Q'):
            ctx.check(close(got[k], want[k], order_tol(order)), 'quadrature: ' + k, got=got[k], want=want[k], model=model.describe(), t=t, order=order, method=method)
            ctx.event('quadrature', k, model.kind, sorted(model.n.items()), N, order, method)
        ctx.check(np.all(got['q'][:, 0] == 0), 'quadratures start at zero', got=got['q'][:, 0])


def exactness(ctx):
    """Polynomial quadrature functions of time (and of the state along x = t)."""
    order, method = ctx.int(1, 5), ctx.pick(['legendre', 'radau'])
    t = gen_time(ctx, 4).astype(float)
    t = t - t[0] + ctx.pick([0., -1., 0.5])
    N = len(t) - 1
    top = 2 * order - 1 if method == 'legendre' else 2 * order - 2
    deg = ctx.int(0, top)
    c = ctx.np.normal(size=(ctx.int(1, 2), deg + 1))
    tt, x = cs.MX.sym('t'), cs.MX.sym('x')
    arg = tt if ctx.chance(0.5) else x
    quad = sum((cs.DM(c[:, k]) * arg ** k for k in range(deg + 1)), cs.DM.zeros(c.shape[0]))
    s = ce.CollocationScheme(ce.SemiExplicitDae(x=x, t=tt, ode=cs.MX.ones(1), quad=quad), t=t, order=order, method=method)
    ctx.log('quadrature of degree %d, %s %d, t=%s', deg, method, order, list(t))
    v = dict(x=t[None, :], K=np.ones((1, N * order)), Z=np.zeros((0, N * order)), u=np.zeros((0, N)), p=np.zeros((0, 1)))
    got = evaluate(scheme_function(s), v)
    P = lambda q: sum(c[:, k] * q ** (k + 1) / (k + 1) for k in range(deg + 1))
    want = np.array([P(q) - P(t[0]) for q in t]).T
    tol = 1e-10 * (1 + np.abs(c).max()) * max(1., np.abs(t).max()) ** (deg + 1) * 10
    ctx.check(got['q'].shape == want.shape and np.abs(got['q'] - want).max() <= tol, 'integral of a polynomial of degree %d' % deg, got=got['q'], want=want, t=t, order=order, method=method)
    ctx.event('exact-ends', order, method, deg, N)
    if deg <= order - 1:
        tc = np.asarray(s.tc, float).ravel()
        want = np.array([P(q) - P(t[0]) for q in tc]).T
        ctx.check(got['Q'].shape == want.shape and np.abs(got['Q'] - want).max() <= tol, 'integral at the points, degree %d' % deg, got=got['Q'], want=want, t=t, order=order, method=method)
        ctx.event('exact-points', order, method, deg, N)


WORKLOADS = {'quadratures': (quadratures, 800, 30000), 'exactness': (exactness, 500, 12000)}
REQUIRED = {'quadrature': 3000, 'exact-ends': 400, 'exact-points': 150}
