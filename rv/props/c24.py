"""The returned trajectory is the collocation polynomial."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..core import Skip
from ..exact import F, Lagrange
from ..gendae import Oracle, close, gen_values, used
from ..gennum import as_given
from .c19 import gen_scheme
from .c23 import gen_problem, make

RULE = 'one distinct observation per (source, states, grid size, order, method, kind of point)'


def examine(ctx, traj, t, orc, x, K, source, tol):
    """x: states at interval starts (and end), K: derivatives at the points."""
    t = np.asarray(t, float)
    N, M, nx = orc.N, orc.M, x.shape[0]
    X, xf = orc.states(x, K)
    one = min(1., np.abs(x).max()) if source != 'integrated' else 1.
    s = tol * (one + np.abs(x).max() + np.abs(K).max() * np.abs(orc.h).max())
    ctx.check(np.array_equal(np.asarray(traj.intervals, float).ravel(), t), 'grid of the trajectory', got=traj.intervals, want=t)
    d = traj.derivative()
    ctx.check(np.array_equal(np.asarray(d.intervals, float).ravel(), t), 'grid of the derivative', got=d.intervals, want=t)

    def at(f, q, cont, shape):
        v = np.asarray(f(q, continuity=cont), float)
        ctx.check(v.shape == shape, 'shape of the trajectory values', got=v.shape, want=shape)
        return v
    sig = (source, nx, N, M, orc.method)
    v = at(traj, t[:-1], 'right', (nx, N))
    ctx.check(np.abs(v - x[:, :N]).max() <= s, 'states at interval starts', got=v, want=x[:, :N], t=t)
    ctx.event('start', *sig)
    v = at(traj, t[1:], 'left', (nx, N))
    ctx.check(np.abs(v - xf).max() <= s, 'states at interval ends', got=v, want=xf, t=t)
    ctx.event('end', *sig)
    # a radau point may coincide with an interval end up to rounding: take the value of the interval the point belongs to
    sd = 1e3 * tol * (one + np.abs(K).max() + np.abs(x).max() / orc.h.min())
    for n in range(N):
        # the polynomial itself, independently: through the start and the points
        lag = Lagrange(np.append(0, orc.c))
        coef = np.hstack([x[:, n:n + 1], X[:, n * M:(n + 1) * M]])
        for i in range(M):
            k = n * M + i
            q = min(max(orc.tc[k], t[n]), t[n + 1])
            last = q == t[n + 1]
            v = at(traj, q, 'left' if last else 'right', (nx, 1))[:, 0]
            ctx.check(np.abs(v - X[:, k]).max() <= s, 'state at collocation point %d of interval %d' % (i, n), got=v, want=X[:, k], t=t)
            v = at(d, q, 'left' if last else 'right', (nx, 1))[:, 0]
            ctx.check(np.abs(v - K[:, k]).max() <= sd, 'derivative at collocation point %d of interval %d' % (i, n), got=v, want=K[:, k], t=t)
            ctx.event('point', i, *sig)
        for _ in range(2):
            tau = ctx.r.random()
            q = t[n] + tau * orc.h[n]
            if not t[n] < q < t[n + 1]:
                continue
            row = np.array([float(r) for r in lag.row((F(float(q)) - F(t[n])) / (F(t[n + 1]) - F(t[n])))])
            want = np.dot(coef, row)
            v = at(traj, q, 'right', (nx, 1))[:, 0]
            ctx.check(np.abs(v - want).max() <= s, 'between the points', got=v, want=want, q=q, t=t)
            ctx.event('between', *sig)


def built(ctx):
    """From arbitrary node states and derivatives (not continuous)."""
    model, t, order, method, tdp_fun, tdp = gen_scheme(ctx)
    if model.n['x'] == 0:       # nothing to look at
        raise Skip()
    N = len(t) - 1
    v = gen_values(ctx, model, N, order, scale=ctx.pick([1., 1., 10., 1e-9, 1e9]))
    dm = cs.DM
    if ctx.chance(0.2):         # structural zeros
        dm = lambda a: cs.sparsify(cs.DM(a))
        for k in ('x', 'K'):
            v[k][ctx.np.uniform(size=v[k].shape) < 0.4] = 0
    ctx.log('%s, t=%s, %s %d, %s', model.describe(), list(t), method, order, v)
    s = ce.CollocationScheme(used(ctx, model, ce.CollocationScheme, t, order, method, tdp_fun), t=as_given(ctx, t), order=order, method=method, tdp_fun=tdp_fun)
    orc = Oracle(model, t, order, method, tdp)
    orc.method = method
    traj = s.piecewisePolyX(dm(v['x']), dm(v['K']))
    w = {k: v[k].copy() for k in ('x', 'K')}
    examine(ctx, traj, t, orc, v['x'], v['K'], 'built', 1e-11)
    # another trajectory of the same scheme leaves the first one alone
    v2 = gen_values(ctx, model, N, order)
    examine(ctx, s.piecewisePolyX(cs.DM(v2['x']), cs.DM(v2['K'])), t, orc, v2['x'], v2['K'], 'second', 1e-11)
    examine(ctx, traj, t, orc, w['x'], w['K'], 'first again', 1e-11)


def integrated(ctx):
    model, t, order, method, tdp_fun, tdp, v = gen_problem(ctx)
    ctx.log('%s, t=%s, %s %d, %s', model.describe(), list(t), method, order, v)
    f = make(ctx, model, t, order, method, tdp_fun)
    orc = Oracle(model, t, order, method, tdp)
    orc.method = method
    arg = dict(x0=v['x0'], z0=v['z0'], u=v['u'], p=v['p'])
    out = f.integrate(**arg)
    r = f(**arg)
    for k in r:
        a, b = out[k].full(), r[k].full()
        ctx.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), 'integrate() and the function differ in %s' % k, got=a, want=b)
    examine(ctx, out['x_traj'], t, orc, out['x'].full(), out['K'].full(), 'integrated', 1e-9)
    # the whole trajectory starts at x0 and passes through all the states
    tr = np.asarray(out['x_traj'](np.asarray(t, float)), float)
    ctx.check(close(tr[:, 0], v['x0'], 1e-8), 'trajectory must start at x0', got=tr[:, 0], want=v['x0'])
    ctx.check(close(tr, out['x'].full(), 1e-8), 'trajectory on the grid', got=tr, want=out['x'])


WORKLOADS = {'built': (built, 400, 10000), 'integrated': (integrated, 250, 6000)}
REQUIRED = {'start': 800, 'end': 800, 'point': 4000, 'between': 3000}
