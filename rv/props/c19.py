"""Collocation equations are the collocation conditions of the model."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..gendae import Oracle, close, evaluate, gen_model, gen_tdp, gen_time, gen_values, order_tol, scheme_function, used
from ..gennum import as_given

RULE = 'one distinct observation per (kind and sizes of the model, grid size, order, method, compared quantity)'


def gen_scheme(ctx, nmax=4, **kw):
    model = gen_model(ctx, **kw)
    t = gen_time(ctx, nmax)
    method = ctx.pick(['legendre', 'radau'])
    order = ctx.int(1, 5) if ctx.chance(0.9) else ctx.int(6, 9)
    tdp_fun, tdp = gen_tdp(ctx, model.n['tdp'])
    return model, t, order, method, tdp_fun, tdp


def equations(ctx):
    model, t, order, method, tdp_fun, tdp = gen_scheme(ctx)
    N = len(t) - 1
    ctx.log('%s, t=%s, %s %d', model.describe(), list(t), method, order)
    kw = dict(t=as_given(ctx, t), order=order, method=method, tdp_fun=tdp_fun)
    if method == 'legendre' and ctx.chance(0.3):
        del kw['method']
    if ctx.chance(0.3):
        kw['expand'] = ctx.chance(0.5)
    s = ce.CollocationScheme(used(ctx, model, ce.CollocationScheme, t, order, method, tdp_fun), **kw)
    orc = Oracle(model, t, order, method, tdp)
    n = model.n
    sig = (model.kind, sorted(n.items()), N, order, method)
    ctx.check(s.x.shape == (n['x'], N + 1) and s.K.shape == (n['x'], N * order) and s.Z.shape == (n['z'], N * order) and s.u.shape == (n['u'], N) and s.p.shape[0] == n['p'],
              'shapes of the variables', got=(s.x.shape, s.K.shape, s.Z.shape, s.u.shape, s.p.shape))
    ctx.check(s.numTotalCollocationPoints == N * order, 'number of points', got=s.numTotalCollocationPoints)
    ctx.check(close(np.asarray(s.tc, float).ravel(), orc.tc, 1e-14), 'points in time', got=s.tc, want=orc.tc)
    ctx.check(np.array_equal(np.asarray(s.t, float), np.asarray(t, float)), 'interval bounds', got=s.t, want=t)
    ctx.check(cs.is_equal(s.xdot, s.K), 'state derivatives under their former name')
    f = scheme_function(s)
    for _ in range(2):
        v = gen_values(ctx, model, N, order, scale=ctx.pick([1., 1., 5., 0.01]))
        got, want = evaluate(f, v), orc(**v)
        for k in ('collocation', 'continuity', 'X', 'U'):
            ctx.check(close(got[k], want[k], order_tol(order)), k, got=got[k], want=want[k], model=model.describe(), t=t, order=order, method=method)
            ctx.event('equation', k, *sig)
        ctx.check(got['param'].size == 0, 'parameters are not repeated, so there is nothing to constrain', got=got['param'])
        ctx.check(close(got['cat'][:, 0], np.hstack([want['collocation'].ravel(order='F'), want['continuity'].ravel(order='F')]), order_tol(order)), 'the residual consists of nothing but these equations', got=got['cat'])
        ctx.event('residual', *sig)
        # states from numbers
        X = s.evalX(cs.DM(v['x']), cs.DM(v['K']))
        ctx.check(close(cs.DM(X).full(), want['X'], order_tol(order)), 'evalX', got=X, want=want['X'])
        ctx.event('evalX', *sig)
    ctx.check(close(s.butcher.A, orc.A, 1e-9) and close(s.butcher.b, orc.b, 1e-9) and close(s.butcher.c, orc.c, 1e-14), 'tableau of the scheme', got=s.butcher)


def polynomial(ctx):
    """Every polynomial solution within the degree has zero residual."""
    n, order = ctx.int(1, 2), ctx.int(1, 5)
    method = ctx.pick(['legendre', 'radau'])
    c = ctx.np.normal(size=(n, order + 1))     # x of degree <= order
    tt = cs.MX.sym('t')
    x = cs.MX.sym('x', n)
    dt = lambda s: sum(k * c[:, k] * s ** (k - 1) for k in range(1, order + 1))
    xt = lambda s: sum(c[:, k] * s ** k for k in range(order + 1))
    z = cs.MX.sym('z', n)
    lam = ctx.r.uniform(-2, 2)
    dae = ce.SemiExplicitDae(x=x, t=tt, z=z, ode=sum((cs.DM(k * c[:, k]) * tt ** (k - 1) for k in range(1, order + 1)), cs.DM.zeros(n)) + lam * (z - x), alg=z - x)
    t = gen_time(ctx, 3).astype(float)
    if abs(t).max() > 5:
        t = t - t[0]
    N = len(t) - 1
    s = ce.CollocationScheme(dae, t=t, order=order, method=method)
    tc = np.asarray(s.tc, float).ravel()
    X = np.array([xt(q) for q in tc]).T
    v = dict(x=np.array([xt(q) for q in t]).T, K=np.array([dt(q) for q in tc]).T, Z=X, u=np.zeros((0, N)), p=np.zeros((0, 1)))
    got = evaluate(scheme_function(s), v)
    tol = 1e-10 * (1 + np.abs(X).max() + np.abs(v['x']).max()) * max(1, np.abs(t).max()) ** order
    for k in ('collocation', 'continuity'):
        ctx.check(np.abs(got[k]).max() <= tol, 'polynomial solution of degree %d must satisfy the %s equations' % (order, k), got=got[k], t=t, method=method)
    ctx.check(np.abs(got['X'] - X).max() <= tol, 'states along a polynomial solution', got=got['X'], want=X)
    ctx.event('polynomial', n, order, method, N)


def fine(ctx):
    """Short intervals at late times: still one value of the time-dependent parameter per point."""
    order, method, N = ctx.int(1, 4), ctx.pick(['legendre', 'radau']), ctx.int(1, 4)
    t0 = ctx.pick([-1, 1]) * 10.0 ** ctx.int(0, 6)
    h = abs(t0) * 10.0 ** -ctx.int(5, 10)
    t = t0 + h * np.append(0, np.cumsum(ctx.np.uniform(0.5, 2, size=N)))
    x, q = cs.MX.sym('x'), cs.MX.sym('q')
    ctx.log('t=%s, %s %d', [repr(v) for v in t], method, order)
    s = ce.CollocationScheme(ce.SemiExplicitDae(x=x, tdp=q, ode=q - x), t=as_given(ctx, t), order=order, method=method, tdp_fun=lambda v: (v - t0) / h)
    c = np.array(cs.collocation_points(order, method))
    want = np.hstack([((t[n] - t0) + (t[n + 1] - t[n]) * c) / h for n in range(N)])
    X, K = ctx.np.normal(size=(1, N + 1)), ctx.np.normal(size=(1, N * order))
    v = dict(x=X, K=K, Z=np.zeros((0, N * order)), u=np.zeros((0, N)), p=np.zeros((0, 1)))
    got = evaluate(scheme_function(s), v)
    tol = 1e-12 + 1e-14 * abs(t0) / h       # rounding of the times
    r = got['collocation'] - K - got['X'] + want
    ctx.check(np.abs(r).max() <= tol * 10, 'values of the time-dependent parameter', got=want - r, want=want, t=t, order=order, method=method)
    ctx.check(np.abs(got['continuity'] - (X[:, :-1] - X[:, 1:])).max() <= 100 * h, 'short steps', got=got['continuity'])
    ctx.event('fine', order, method, N)


WORKLOADS = {'equations': (equations, 1000, 40000), 'polynomial': (polynomial, 400, 10000), 'fine': (fine, 150, 3000)}
REQUIRED = {'equation': 1200, 'residual': 300, 'evalX': 300, 'polynomial': 100, 'fine': 150}
