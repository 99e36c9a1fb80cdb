"""Integration composes over time."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..gendae import Model, close
from .c23 import call, gen_problem

RULE = 'one distinct observation per (relation, kind and sizes of the model, grid size, order, method)'
TOL = 1e-7


def integrator(model, t, order, method, tdp_fun):
    return ce.collocationIntegrator('f', model.dae(), t=t, order=order, method=method, tdp_fun=tdp_fun)


def split(ctx):
    """The whole grid against consecutive parts."""
    model, t, order, method, tdp_fun, tdp, v = gen_problem(ctx)
    N = len(t) - 1
    if N == 1:
        t = np.array([t[0], 0.4 * t[0] + 0.6 * t[1], t[1]])
        N = 2
        v['u'] = ctx.np.normal(size=(model.n['u'], N))
    ctx.log('%s, t=%s, %s %d, %s', model.describe(), list(t), method, order, v)
    whole = call(integrator(model, t, order, method, tdp_fun), v)
    cuts = list(range(N + 1)) if ctx.chance(0.5) else sorted(set([0, N] + [ctx.int(1, N - 1)]))
    x, q = v['x0'], np.zeros(model.n['q'])
    for a, b in zip(cuts[:-1], cuts[1:]):
        r = call(integrator(model, t[a:b + 1], order, method, tdp_fun), dict(v, x0=x, u=v['u'][:, a:b]))
        c = slice(a * order, b * order)
        for k, want in (('x', whole['x'][:, a:b + 1]), ('X', whole['X'][:, c]), ('Z', whole['Z'][:, c]), ('K', whole['K'][:, c]), ('xf', whole['x'][:, a + 1:b + 1])):
            ctx.check(r[k].size == want.size == 0 or close(r[k], want, TOL), '%s on intervals %d..%d alone' % (k, a, b), got=r[k], want=want, model=model.describe(), t=t, order=order, method=method)
        ctx.check(close(r['tc'].ravel(), whole['tc'].ravel()[c], 1e-12), 'tc of the parts', got=r['tc'], want=whole['tc'])
        if model.n['q']:
            ctx.check(close(r['Q'] + q[:, None], whole['Q'][:, c], TOL), 'quadratures do not add up', got=r['Q'] + q[:, None], want=whole['Q'][:, c])
            q = q + r['qf'][:, 0]
        x = r['xf'][:, -1]
        ctx.event('part', model.kind, sorted(model.n.items()), N, a, b, order, method)
    ctx.check(close(x, whole['x'][:, -1], TOL), 'final state', got=x, want=whole['x'][:, -1])
    if model.n['q']:
        ctx.check(close(q, whole['qf'][:, 0], TOL), 'final quadrature', got=q, want=whole['qf'])


def shift(ctx):
    model, t, order, method, tdp_fun, tdp, v = gen_problem(ctx)
    d = ctx.pick([1., -2., 0.5, 4., -8.25])
    ctx.log('%s, t=%s shifted by %s, %s %d, %s', model.describe(), list(t), d, method, order, v)
    a = call(integrator(model, t, order, method, tdp_fun), v)
    sym, expr = dict(model.sym), dict(model.expr)
    if 't' in sym:
        names = list(expr)
        new = cs.substitute([expr[k] for k in names], [sym['t']], [sym['t'] - d])
        expr = dict(zip(names, new))
    m2 = Model(model.kind, model.n, sym, expr) if 't' in sym else model
    tdp2 = None if tdp_fun is None else (lambda s: tdp_fun(s - d))
    ctx.log('the model %s', 'depends on time' if 't' in sym else 'is the same')
    b = call(integrator(m2, np.asarray(t, float) + d, order, method, tdp2), v)
    for k in ('x', 'xf', 'X', 'Z', 'K', 'Q', 'qf'):
        ctx.check(a[k].size == b[k].size == 0 or close(b[k], a[k], TOL), '%s of the shifted problem' % k, got=b[k], want=a[k], t=t, shift=d, model=model.describe())
    ctx.check(close(b['tc'], a['tc'] + d, 1e-12), 'points of the shifted problem', got=b['tc'], want=a['tc'] + d)
    ctx.event('shift', model.kind, sorted(model.n.items()), model.has_t, len(t) - 1, order, method)


def causal(ctx):
    model, t, order, method, tdp_fun, tdp, v = gen_problem(ctx, nu=ctx.int(1, 2))
    N = len(t) - 1
    if N == 1:
        t = np.array([t[0], 0.4 * t[0] + 0.6 * t[1], t[1]])
        N = 2
        v['u'] = ctx.np.normal(size=(model.n['u'], N))
    ctx.log('%s, t=%s, %s %d, %s', model.describe(), list(t), method, order, v)
    f = integrator(model, t, order, method, tdp_fun)
    a = call(f, v)
    n = ctx.int(1, N - 1)       # inputs from interval n on change
    u = v['u'].copy()
    u[:, n:] = ctx.np.normal(size=(u.shape[0], N - n)) + ctx.pick([0, 2])
    b = call(f, dict(v, u=u))
    # and the grid changes from interval n on
    t2 = np.array(t, float)
    t2[n + 1:] += 0.4 * (t[n + 1] - t[n])
    c = call(integrator(model, t2, order, method, tdp_fun), dict(v, u=u))
    d = call(integrator(model, t[:n + 1], order, method, tdp_fun), dict(v, u=v['u'][:, :n]))
    for other, what in ((b, 'later inputs'), (c, 'later inputs and grid'), (d, 'presence of later intervals')):
        for k, m in (('x', n + 1), ('X', n * order), ('Z', n * order), ('K', n * order), ('Q', n * order)):
            p, q = other[k][:, :m], a[k][:, :m]
            ctx.check(p.size == q.size == 0 or close(p, q, TOL), '%s depends on %s' % (k, what), got=p, want=q, t=t, n=n)
        ctx.event('causal', what, model.kind, sorted(model.n.items()), N, n, order, method)
    # while the input of interval n matters from there on
    if not np.allclose(a['K'][:, n * order:(n + 1) * order], b['K'][:, n * order:(n + 1) * order], atol=1e-6):
        ctx.event('input-matters', N, n, order, method)


WORKLOADS = {'split': (split, 250, 5000), 'shift': (shift, 250, 5000), 'causal': (causal, 200, 4000)}
REQUIRED = {'part': 400, 'shift': 200, 'causal': 400, 'input-matters': 120}
