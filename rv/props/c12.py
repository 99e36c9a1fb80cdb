"""Differentiation matrices are exact on polynomials."""
import numpy as np
import casadi_extras as ce
import casadi_extras.collocation as cl

from ..exact import F, Lagrange, fl, flm, fr
from ..gennum import family_points, gen_nodes

RULE = 'one distinct observation per (number of nodes, source of the nodes)'
TOL = 1e-11


def check_D(ctx, D, exact, what, tol=TOL, **detail):
    e = flm(exact)
    D = np.asarray(D, float)
    ctx.check(D.shape == e.shape, what + ': shape', got=D.shape, want=e.shape, **detail)
    bound = tol * np.sum(np.abs(e), axis=1, keepdims=True) + 1e-300
    ctx.check(np.all(np.abs(D - e) <= bound), what, got=D, want=e, **detail)
    return e


def basis(ctx):
    nodes = gen_nodes(ctx)
    n = len(nodes)
    ctx.log('nodes %s', nodes)
    lag = Lagrange(nodes)
    b = cl.PolynomialBasis(nodes if ctx.chance(0.8) else [float(x) for x in nodes])
    e = check_D(ctx, b.D, lag.D(), 'differentiation matrix', nodes=nodes)
    ctx.event('matrix', n, 'any')
    # by its definition: values of a polynomial to values of its derivative
    c = ctx.np.normal(size=ctx.int(1, n))
    x = fr(nodes)
    y = [sum(F(float(a)) * v ** k for k, a in enumerate(c)) for v in x]
    dy = [sum((F(float(a)) * k * v ** (k - 1) for k, a in enumerate(c) if k), F(0)) for v in x]
    got = np.dot(np.asarray(b.D, float), fl(y))
    bound = 1e-10 * np.dot(np.abs(e), np.abs(fl(y))) + 1e-300
    ctx.check(np.all(np.abs(got - fl(dy)) <= bound), 'derivative of a polynomial of degree %d' % (len(c) - 1), got=got, want=fl(dy), nodes=nodes)
    ctx.event('polynomial', n, len(c))
    if ctx.chance(0.3):
        again = cl.PolynomialBasis(np.array(nodes)).D
        ctx.check(np.array_equal(again, b.D), 'the same nodes give another matrix')


def high_order(ctx):
    n = ctx.int(10, 26)
    nodes = family_points(n, 'chebyshev') * ctx.pick([1, 3, 0.01]) - ctx.pick([0, 1])
    lag = Lagrange(nodes)
    check_D(ctx, cl.PolynomialBasis(nodes).D, lag.D(), 'differentiation matrix of high order', 1e-9, nodes=nodes)
    ctx.event('matrix', n, 'high')


def cheb(ctx):
    N = ctx.pick([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16])
    k = ctx.pick(['unit', 'sym', 'random', 'int', 'reversed', 'big', 'tiny'])
    t0, tf = {'unit': (0, 1), 'sym': (-1, 1), 'random': (ctx.r.uniform(-3, 3), ctx.r.uniform(4, 9)), 'int': (ctx.int(-3, 2), ctx.int(3, 9)),
              'reversed': (ctx.r.uniform(1, 3), ctx.r.uniform(-4, 0)), 'big': (1000., 1010.5), 'tiny': (0.5, 0.5 + 2.0 ** -10)}[k]
    ctx.log('cheb(%d, %r, %r)', N, t0, tf)
    f = ctx.pick([ce.cheb, cl.cheb])
    D, t = f(N, t0, tf)
    tau = family_points(N, 'chebyshev')
    want = t0 + (tf - t0) * tau
    t = np.asarray(t, float)
    m = 8e-16 * max(abs(t0), abs(tf)) + 4e-16 * abs(tf - t0)
    ctx.check(t.shape == (N + 1,) and np.all(np.abs(t - want) <= m), 'nodes', got=t, want=want)
    ctx.check(abs(t[0] - t0) <= m and abs(t[-1] - (tf if N else t0)) <= m, 'first and last node', got=(t[0], t[-1]))
    d = F(float(tf)) - F(float(t0))
    exact = [[v / d for v in r] for r in Lagrange(tau).D()]
    check_D(ctx, D, exact, 'matrix of cheb(%d, %r, %r)' % (N, t0, tf), 1e-10 * (1 + N * N / 10.))
    c = ctx.np.normal(size=ctx.int(1, N + 1))
    s = [F(float(v)) for v in tau]
    y = fl([sum(F(float(a)) * v ** j for j, a in enumerate(c)) for v in s])
    dy = fl([sum((F(float(a)) * j * v ** (j - 1) for j, a in enumerate(c) if j), F(0)) / d for v in s])
    bound = 1e-9 * (np.dot(np.abs(flm(exact)), np.abs(y)) + 1e-12)
    ctx.check(np.all(np.abs(np.dot(D, y) - dy) <= bound), 'derivative with respect to t', got=np.dot(D, y), want=dy)
    ctx.event('cheb', N, k)


WORKLOADS = {'basis': (basis, 1500, 40000), 'high_order': (high_order, 60, 800), 'cheb': (cheb, 600, 12000)}
REQUIRED = {'matrix': 1200, 'polynomial': 1200, 'cheb': 400}
