"""The collocation integrator returns the solution it claims."""
import casadi as cs
import numpy as np
import casadi_extras as ce
import casadi_extras.collocation as cl

from ..gendae import Model, Oracle, close, easy_steps, gen_model, gen_tdp, gen_time, used
from ..gennum import as_given

RULE = 'one distinct observation per (kind and sizes of the model, grid size, order, method)'
NAMES = ['xf', 'zf', 'qf', 'X', 'Z', 'Q', 'x', 'K', 'tc']


def gen_problem(ctx, nmax=4, **kw):
    model = gen_model(ctx, solvable=True, **kw)
    t = easy_steps(ctx, [model], gen_time(ctx, nmax))
    method = ctx.pick(['legendre', 'radau'])
    order = ctx.int(1, 4)
    tdp_fun, tdp = gen_tdp(ctx, model.n['tdp'])
    n = model.n
    N = len(t) - 1
    v = dict(x0=ctx.np.normal(size=n['x']), z0=ctx.np.normal(size=n['z']) * 0.1, u=ctx.np.normal(size=(n['u'], N)), p=ctx.np.normal(size=n['p']))
    return model, t, order, method, tdp_fun, tdp, v


def make(ctx, model, t, order, method, tdp_fun):
    kw = dict(t=as_given(ctx, t), order=order, method=method, tdp_fun=tdp_fun)
    dae = used(ctx, model, lambda *a, **k: ce.collocationIntegrator(ctx.pick(['before', 'integrator']), *a, **k), t, order, method, tdp_fun)
    if ctx.chance(0.2):
        return ce.collocationIntegrator('integrator', dae, kw['t'], order, method, tdp_fun)
    if ctx.chance(0.3):
        return cl.CollocationIntegrator('integrator', dae, **kw)
    return ce.collocationIntegrator('integrator', dae, **kw)


def call(f, v):
    r = f(x0=v['x0'], z0=v['z0'], u=v['u'], p=v['p'])
    return {k: r[k].full() for k in r}


def outputs(ctx):
    model, t, order, method, tdp_fun, tdp, v = gen_problem(ctx)
    ctx.log('%s, t=%s, %s %d, %s', model.describe(), list(t), method, order, v)
    f = make(ctx, model, t, order, method, tdp_fun)
    verify(ctx, f, model, t, order, method, tdp, v)
    if ctx.chance(0.5):        # the function keeps no state between calls
        v2 = dict(v, x0=ctx.np.normal(size=model.n['x']), u=ctx.np.normal(size=v['u'].shape))
        verify(ctx, f, model, t, order, method, tdp, v2)
        verify(ctx, f, model, t, order, method, tdp, v)


def verify(ctx, f, model, t, order, method, tdp, v):
    n, N = model.n, len(t) - 1
    r = call(f, v)
    ctx.check(set(NAMES) <= set(r), 'outputs', got=sorted(r))
    orc = Oracle(model, t, order, method, tdp)
    shapes = dict(xf=(n['x'], N), qf=(n['q'], 1), X=(n['x'], N * order), Z=(n['z'], N * order), Q=(n['q'], N * order), x=(n['x'], N + 1), K=(n['x'], N * order))
    for k, sh in shapes.items():
        ctx.check(r[k].shape == sh or (0 in sh and r[k].size == 0), 'shape of %s' % k, got=r[k].shape, want=sh)
    tol = 1e-8
    want = orc(x=r['x'].reshape(n['x'], N + 1), K=r['K'].reshape(n['x'], N * order), Z=r['Z'].reshape(n['z'], N * order), u=v['u'], p=v['p'].reshape(n['p'], 1))
    s = 1 + np.abs(r['x']).max() + np.abs(r['K']).max()
    ctx.check(np.abs(want['collocation']).max() <= tol * s, 'the outputs do not satisfy the collocation equations', residual=want['collocation'], model=model.describe(), t=t, order=order, method=method)
    ctx.check(np.abs(want['continuity']).max() <= tol * s, 'the outputs do not satisfy the continuity equations', residual=want['continuity'], t=t)
    ctx.check(close(r['x'][:, 0], v['x0'], tol), 'x must start at x0', got=r['x'][:, 0], want=v['x0'])
    ctx.check(np.array_equal(r['xf'], r['x'][:, 1:]) or close(r['xf'], r['x'][:, 1:], 1e-12), 'xf must be the remaining columns of x', got=r['xf'], want=r['x'][:, 1:])
    ctx.check(close(r['X'], want['X'], 1e-10), 'X', got=r['X'], want=want['X'])
    ctx.check(close(r['tc'].ravel(), orc.tc, 1e-13), 'tc', got=r['tc'], want=orc.tc)
    if n['q']:
        ctx.check(close(r['Q'], want['Q'], 1e-10), 'Q', got=r['Q'], want=want['Q'], model=model.describe(), t=t)
        ctx.check(close(r['qf'][:, 0], want['q'][:, -1], 1e-10), 'qf', got=r['qf'], want=want['q'][:, -1])
    ctx.event('solution', model.kind, sorted(n.items()), N, order, method)


def polynomial(ctx):
    """Solutions that are polynomials are reproduced."""
    order, method = ctx.int(1, 5), ctx.pick(['legendre', 'radau'])
    end = 2 * order if method == 'legendre' else 2 * order - 1      # degree of x exact at interval ends (pure quadrature)
    deg = ctx.int(0, end)
    t = gen_time(ctx, 3).astype(float)
    t = ctx.pick([0., -0.5]) + (t - t[0]) * min(1., 1.5 / (t[-1] - t[0]))
    c = ctx.np.normal(size=deg + 1)
    x, tt, z = cs.MX.sym('x'), cs.MX.sym('t'), cs.MX.sym('z')
    dx = sum((k * c[k] * tt ** (k - 1) for k in range(1, deg + 1)), cs.MX.zeros(1))
    P = lambda s: sum(c[k] * s ** k for k in range(deg + 1))
    if ctx.chance(0.5):
        dae = ce.SemiExplicitDae(x=x, t=tt, ode=dx)
    else:
        dae = ce.SemiExplicitDae(x=x, t=tt, z=z, ode=z, alg=z - dx, quad=x)
    f = ce.collocationIntegrator('f', dae, t=t, order=order, method=method)
    r = f(x0=P(t[0]), z0=0)
    tol = 1e-8 * (1 + np.abs(c).sum())
    want = np.array([P(s) for s in t])
    ctx.check(np.abs(r['x'].full()[0] - want).max() <= tol, 'polynomial solution of degree %d at interval ends' % deg, got=r['x'], want=want, t=t, order=order, method=method)
    if deg <= order:
        tc = r['tc'].full().ravel()
        ctx.check(np.abs(r['X'].full()[0] - [P(s) for s in tc]).max() <= tol, 'polynomial solution at the points', got=r['X'], t=t, order=order)
    ctx.event('polynomial', deg, order, method, len(t) - 1)


def convergence(ctx):
    """x' = lam x (and as DAE), error against the exponential when the step is halved."""
    order, method = ctx.int(1, 3), ctx.pick(['legendre', 'radau'])
    p = 2 * order if method == 'legendre' else 2 * order - 1
    lam = ctx.pick([-1, 1]) * ctx.r.uniform(1.0, 1.6)
    x, z, q = cs.MX.sym('x'), cs.MX.sym('z'), cs.MX.sym('p')
    form = ctx.pick(['ode', 'dae', 'implicit'])
    if form == 'ode':
        dae = ce.SemiExplicitDae(x=x, p=q, ode=q * x)
    elif form == 'dae':
        dae = ce.SemiExplicitDae(x=x, z=z, p=q, ode=z, alg=z - q * x)
    else:
        xd = cs.MX.sym('xdot')
        dae = ce.ImplicitDae(xdot=xd, x=x, p=q, dae=xd - q * x)
    err = []
    for n in ((32, 64) if order == 1 else (4, 8)):
        f = ce.collocationIntegrator('f', dae, t=np.linspace(0, 1, n + 1), order=order, method=method)
        r = f(x0=1., z0=lam, p=lam)
        err.append(abs(float(r['x'][0, -1]) - np.exp(lam)))
    ctx.log('%s %d lam=%s form=%s errors %s', method, order, lam, form, err)
    if err[1] > 1e-12:
        rate = np.log2(err[0] / err[1])
        ctx.check(abs(rate - p) < 0.6, 'order of convergence', got=rate, want=p, errors=err, method=method, order=order)
        ctx.event('convergence', method, order, form, lam > 0)
    ctx.check(err[0] < 0.3, 'error', got=err)


def euler(ctx):
    """One point schemes are the implicit Euler and the midpoint rule; checked without any tableau."""
    lam, x0 = ctx.r.uniform(-1.5, 1.5), ctx.r.uniform(-2, 2)
    t = gen_time(ctx, 4).astype(float)
    h = np.diff(t)
    method = ctx.pick(['legendre', 'radau'])
    x, u = cs.MX.sym('x'), cs.MX.sym('u')
    f = ce.collocationIntegrator('f', ce.SemiExplicitDae(x=x, u=u, ode=lam * x + u), t=t, order=1, method=method)
    uv = ctx.np.normal(size=(1, h.size))
    if np.any(np.abs(1 - h * lam) < 0.2):
        return
    s, want = x0, [x0]
    for k in range(h.size):
        if method == 'radau':
            s = (s + h[k] * uv[0, k]) / (1 - h[k] * lam)
        else:
            s = ((1 + h[k] * lam / 2) * s + h[k] * uv[0, k]) / (1 - h[k] * lam / 2)
        want.append(s)
    if np.abs(want).max() > 100:    # Newton's method stops at an absolute tolerance
        return
    got = f(x0=x0, u=uv)['x'].full()[0]
    ctx.check(close(got, want, 1e-8), 'one-point scheme', got=got, want=want, method=method, t=t)
    ctx.event('one-point', method, h.size)


def nonlinear(ctx):
    """Long steps of monotone problems with one point per interval: a unique solution, to which Newton's method converges, but slowly."""
    k = ctx.pick(['cubic', 'exp', 'root'])
    x, u = cs.MX.sym('x'), cs.MX.sym('u')
    a = round(ctx.r.uniform(0.3, 1.5), 2)
    n = dict(x=1, z=0, u=1, p=0, tdp=0, q=1)
    sym, expr = dict(x=x, u=u), dict(quad=x * x)
    z0 = np.zeros(0)
    if k == 'cubic':
        expr['ode'] = -a * x ** 3 + u
    elif k == 'exp':
        expr['ode'] = -a * cs.exp(x) + u
    else:
        z = sym['z'] = cs.MX.sym('z')
        n['z'] = 1
        expr.update(ode=-a * x + u, alg=z + z ** 3 - x)
        z0 = np.array([ctx.r.uniform(3, 6)])
    m = Model('semi', n, sym, expr)
    m.text = '%s %g' % (k, a)
    t = np.append(0, np.cumsum(ctx.np.uniform(1, 8, size=ctx.int(1, 3))))
    method = ctx.pick(['legendre', 'radau', 'radau'])
    v = dict(x0=np.array([ctx.r.uniform(2, 5)]), z0=z0, u=ctx.np.uniform(0, 0.5, size=(1, len(t) - 1)), p=np.zeros(0))
    if method == 'legendre':
        t = t / 8
    ctx.log('%s, t=%s, %s, %s', m.describe(), list(t), method, v)
    f = make(ctx, m, t, 1, method, None)
    verify(ctx, f, m, t, 1, method, lambda s: np.zeros(0), v)
    ctx.event('nonlinear', k, len(t), method)


def branches(ctx):
    """An algebraic equation with two solutions: the guess z0 selects one."""
    nz = ctx.int(1, 2)
    x, z, u = cs.MX.sym('x'), cs.MX.sym('z', nz), cs.MX.sym('u')
    a = np.round(ctx.np.uniform(0.5, 3, size=nz), 2)
    c = ctx.pick([0, 0, -40, 60])
    n = dict(x=1, z=nz, u=1, p=0, tdp=0, q=1)
    sym, expr = dict(x=x, z=z, u=u), dict(quad=cs.sum1(z), ode=0.2 * cs.sum1(z - c) + u, alg=(z - c) ** 2 - a * a * (1 + 0.2 * cs.tanh(x)))
    m = Model('semi', n, sym, expr)
    m.text = 'two branches %s around %s' % (a, c)
    t = gen_time(ctx, 4).astype(float)
    t = t[0] + (t - t[0]) * min(1.0, 1.5 / (t[-1] - t[0]))
    order, method = ctx.int(1, 4), ctx.pick(['legendre', 'radau'])
    side = ctx.np.choice([-1, 1], size=nz)
    v = dict(x0=ctx.np.normal(size=1), z0=c + side * a * ctx.np.uniform(0.8, 1.6, size=nz), u=ctx.np.normal(size=(1, len(t) - 1)), p=np.zeros(0))
    ctx.log('%s, t=%s, %s %d, %s', m.describe(), list(t), method, order, v)
    f = make(ctx, m, t, order, method, None)
    verify(ctx, f, m, t, order, method, lambda s: np.zeros(0), v)
    Z = call(f, v)['Z']
    ctx.check(np.array_equal(np.sign(Z - c), np.repeat(side[:, None], Z.shape[1], axis=1)), 'the other solution than that near z0', got=Z, z0=v['z0'])
    ctx.event('branch', nz, len(t), order, method)


WORKLOADS = {'branches': (branches, 100, 2000), 'nonlinear': (nonlinear, 150, 3000), 'outputs': (outputs, 300, 8000), 'polynomial': (polynomial, 150, 3000), 'convergence': (convergence, 80, 1000), 'euler': (euler, 80, 1000)}
REQUIRED = {'branch': 60, 'nonlinear': 120, 'solution': 300, 'polynomial': 100, 'convergence': 40, 'one-point': 40}
