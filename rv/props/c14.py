"""Butcher tableaus satisfy the collocation order conditions."""
import casadi as cs
import numpy as np
import casadi_extras.collocation as cl

from ..exact import F, Lagrange, fl, fr, integ, val
from ..gennum import gen_nodes

RULE = 'one distinct observation per (source of the nodes, number of nodes, degree)'


def check_tableau(ctx, bt, nodes, tol, what):
    n = len(nodes)
    lag = Lagrange(nodes)
    A, b, c = np.asarray(bt.A, float), np.asarray(bt.b, float), np.asarray(bt.c, float)
    ctx.check(A.shape == (n, n) and b.shape == (n,) and c.shape == (n,), what + ': shapes', got=(A.shape, b.shape, c.shape))
    ctx.check(np.array_equal(c, np.asarray(nodes, float)), what + ': nodes', got=c, want=nodes)
    # exact integrals of the Lagrange polynomials, and the magnitude of the monomial form
    I = [integ(p) for p in lag.coef]
    mag = []
    for j in range(n):
        p = [abs(lag.w[j])]
        for r in range(n):
            if r != j:
                q = [F(0)] * (len(p) + 1)
                for k, v in enumerate(p):
                    q[k] += v * abs(lag.x[r])
                    q[k + 1] += v
                p = q
        mag.append(integ(p))
    for i, x in enumerate(lag.x):
        want = fl([val(I[j], x) for j in range(n)])
        bnd = fl([val(mag[j], abs(x)) for j in range(n)])
        ctx.check(np.all(np.abs(A[i] - want) <= tol * bnd + 1e-300), what + ': row %d of the matrix' % i, got=A[i], want=want, nodes=nodes)
    want = fl([val(I[j], F(1)) for j in range(n)])
    bnd = fl([val(mag[j], F(1)) for j in range(n)])
    ctx.check(np.all(np.abs(b - want) <= tol * bnd), what + ': weights', got=b, want=want, nodes=nodes)
    ctx.event('tableau', what, n)
    # by definition: degree < n from 0 to node i and from 0 to 1
    x = fr(nodes)
    for deg in range(n):
        y = fl([v ** deg for v in x])
        w = fl([v ** (deg + 1) / (deg + 1) for v in x])
        got = np.dot(A, y)
        m = np.array([sum(float(val(mag[j], abs(v))) for j in range(n)) for v in x]) * np.abs(y).max()
        ctx.check(np.all(np.abs(got - w) <= 10 * tol * m + 1e-300), what + ': degree %d up to the nodes' % deg, got=got, want=w, nodes=nodes)
        ctx.check(abs(np.dot(b, y) - 1. / (deg + 1)) <= 10 * tol * sum(bnd) * np.abs(y).max(), what + ': degree %d up to 1' % deg, got=np.dot(b, y), want=1. / (deg + 1), nodes=nodes)
        ctx.event('degree', what, n, deg)


def nodes(ctx):
    x = gen_nodes(ctx, 8)
    if ctx.chance(0.15):        # a node next to an end of the interval
        e, d = ctx.pick([0, 1]), ctx.pick([-1, 1]) * 10.0 ** -ctx.int(3, 14)
        x = np.append(np.linspace(0.1, 0.85, ctx.int(0, 4)) + ctx.r.uniform(0, 0.05), e + d)
        if ctx.chance(0.3):
            ctx.np.shuffle(x)
    ctx.log('nodes %s', x)
    given = x if ctx.chance(0.7) else list(x)
    check_tableau(ctx, cl.butcherTableuForCollocationPoints(given), x, 1e-12, 'any nodes')


def families(ctx):
    method = ctx.pick(['legendre', 'radau'])
    n = ctx.int(1, 9)
    ctx.log('%s %d', method, n)
    x = cs.collocation_points(n, method)
    if ctx.chance(0.7):
        bt = cl.butcherTableuForCollocationMethod(n, method)
    else:
        bt = cl.butcherTableuForCollocationPoints(x)
    check_tableau(ctx, bt, x, 1e-12, method)
    top = 2 * n - 1 if method == 'legendre' else 2 * n - 2
    b, c = np.asarray(bt.b), np.asarray(bt.c)
    for k in range(top + 1):
        ctx.check(abs(np.dot(b, c ** k) - 1. / (k + 1)) < (1e-10 if n < 6 else 1e-8), '%s weights of order %d, degree %d' % (method, n, k), got=np.dot(b, c ** k), want=1. / (k + 1))
        ctx.event('superconvergence', method, n, k)


def rejects(ctx):
    n = ctx.int(1, 4)
    A, b, c = ctx.np.normal(size=(n, n)), ctx.np.normal(size=n), ctx.np.normal(size=n)
    t = cl.ButcherTableau(A=A, b=b, c=c)
    ctx.check(np.array_equal(t.A, A) and np.array_equal(t.b, b) and np.array_equal(t.c, c), 'a tableau must hold what it was given')
    ctx.event('stored', n)
    m = n + ctx.int(1, 2)
    bad = [(ctx.np.normal(size=(n, m)), b, c), (ctx.np.normal(size=(m, n)), b, c), (A, ctx.np.normal(size=m), c), (A, b, ctx.np.normal(size=m)),
           (A, b[:, None], c), (A, b, c[:, None]), (A, b[None, :], c), (A.ravel(), b, c), (A[None], b, c), (ctx.np.normal(size=(m, m)), b, c),
           (A, b[:-1], c), (A, b, c[:-1]), (A, b[:-1], c[:-1]), (A, float(b[0]), c), (A, b, float(c[0])),
           (ctx.np.normal(size=(n, m)), ctx.np.normal(size=m), c), (ctx.np.normal(size=(m, n)), b, ctx.np.normal(size=m)),
           (ctx.np.normal(size=(n, m)), b, ctx.np.normal(size=m)), (ctx.np.normal(size=(m, n)), ctx.np.normal(size=m), c)]
    for i, (x, y, z) in enumerate(bad):
        try:
            cl.ButcherTableau(A=x, b=y, c=z)
        except Exception:
            ctx.event('rejected', i)
        else:
            ctx.fail('tableau with shapes %s, %s, %s accepted' % (np.shape(x), np.shape(y), np.shape(z)))


WORKLOADS = {'nodes': (nodes, 800, 20000), 'families': (families, 200, 3000), 'rejects': (rejects, 60, 300)}
REQUIRED = {'tableau': 700, 'degree': 2000, 'superconvergence': 800, 'rejected': 500}
