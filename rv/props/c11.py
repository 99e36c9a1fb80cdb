"""Polynomial interpolation is exact."""
import casadi as cs
import numpy as np
import casadi_extras.collocation as ce

from ..core import Skip
from ..exact import F, Lagrange, fl, fr
from ..gennum import family_points, gen_nodes, gen_queries, recycled

RULE = 'one distinct observation per (number of nodes, kind of query, operation)'
TOL = 1e-11


def where(nodes, q):
    n = np.asarray(nodes, dtype=float)
    if q in n:
        return 'node'
    if n.min() < q < n.max():
        return 'inside'
    return 'outside'


def conditioned(lag, x):
    """Far outside of many nodes no double precision formula is accurate (the barycentric one may divide by 0)."""
    return sum(abs(v) for v in lag.row(F(x))) <= 10 ** 10


def matrix(ctx, nmax=9):
    nodes = gen_nodes(ctx, nmax)
    check_nodes(ctx, nodes, TOL)


def check_nodes(ctx, nodes, tol, polys=True):
    n = len(nodes)
    ctx.log('nodes %s', nodes)
    lag = Lagrange(nodes)
    given = nodes if ctx.chance(0.7) else [float(x) for x in nodes]
    basis = ce.PolynomialBasis(given)
    ctx.check(basis.numPoints == n and basis.order == n - 1, 'number of points and order', got=(basis.numPoints, basis.order))
    ctx.check(np.array_equal(np.asarray(basis.tau, float), np.asarray(nodes, float)), 'nodes of the basis', got=basis.tau, want=nodes)
    q = [x for x in gen_queries(ctx, nodes) if conditioned(lag, x)] or [float(nodes[0])]
    if ctx.chance(0.1):         # integers
        q = [float(round(x)) for x in q if abs(x) < 1e9 and conditioned(lag, round(x))] or q
    arg = q[0] if len(q) == 1 and ctx.chance(0.7) else (q if ctx.chance(0.3) else np.array(q))
    if all(x == round(x) and abs(x) < 1e9 for x in q) and ctx.chance(0.5):
        arg = np.array(q, dtype=int if min(q) < 0 or ctx.chance(0.5) else np.uint64)
    M = np.asarray(recycled(ctx, basis.interpolationMatrix, arg))
    ctx.check(M.shape == (len(q), n), 'shape of the interpolation matrix', got=M.shape)
    deg = ctx.int(0, n - 1)
    for i, x in enumerate(q):
        ex = lag.row(F(x))
        e = fl(ex)
        leb = float(sum(abs(v) for v in ex))
        bound = tol * (1 + leb) * np.maximum(np.abs(e), 1)
        ctx.check(np.all(np.abs(M[i] - e) <= bound), 'interpolation row at %r' % x, got=M[i], want=e, nodes=nodes)
        ctx.check(abs(M[i].sum() - 1) <= tol * (1 + leb), 'row sum at %r' % x, got=M[i].sum())
        if x in [float(v) for v in nodes]:
            ctx.check(np.array_equal(M[i], (np.asarray(nodes, float) == x).astype(float)), 'row at a node is not the unit row', got=M[i], x=x, nodes=nodes)
        ctx.event('row', n, where(nodes, x), i > 0)
    if not polys:
        return
    # basis polynomials
    for i, x in enumerate(q[:3]):
        bnd = fl(lag.absrow(F(x)))
        got = np.array([float(p(x)) for p in basis.poly])
        ctx.check(len(basis.poly) == n and np.all(np.abs(got - fl(lag.row(F(x)))) <= tol * (1 + bnd)), 'basis polynomials at %r' % x, got=got, want=fl(lag.row(F(x))), nodes=nodes)
        ctx.event('basis-poly', n, where(nodes, x))
    # composition
    m = ctx.int(1, 4) if ctx.chance(0.95) else ctx.int(5, 9)
    c = ctx.floats(m, n)
    if ctx.chance(0.2):
        c[0] = 0
    if ctx.chance(0.2):
        c[-1] = 2.5
    # composition and interpolation are linear: a scale which is a power of 2 changes no digit
    p2 = 2.0 ** ctx.pick([0, 0, 0, -80, -45, -30, 30, 60])
    comp = basis.compose(c * p2 if ctx.chance(0.8) else np.asfortranarray(c * p2))
    ctx.check(len(comp) == m, 'number of composed polynomials', got=len(comp))
    for x in q[:3]:
        row, bnd = lag.row(F(x)), fl(lag.absrow(F(x)))
        for i in range(m):
            want = float(sum(F(float(c[i, j])) * row[j] for j in range(n)))
            ctx.check(abs(float(comp[i](x)) / p2 - want) <= tol * (1 + np.dot(np.abs(c[i]), bnd)), 'composed polynomial %d at %r' % (i, x), got=comp[i](x) / p2, want=want, nodes=nodes, c=c, scale=p2)
        ctx.event('compose', n, m, where(nodes, x))
    # coefficients of the first polynomials only
    k = ctx.int(1, n)
    comp = basis.compose(c[:, :k])
    ctx.check(len(comp) == m, 'number of composed polynomials', got=len(comp))
    for x in q[:2]:
        row, bnd = lag.row(F(x)), fl(lag.absrow(F(x)))
        for i in range(m):
            want = float(sum((F(float(c[i, j])) * row[j] for j in range(k)), F(0)))
            ctx.check(abs(float(comp[i](x)) - want) <= tol * (1 + np.dot(np.abs(c[i]), bnd)), 'composition of the first %d polynomials at %r' % (k, x), got=comp[i](x), want=want, nodes=nodes, c=c)
        ctx.event('compose-some', n, k)
    # function-like interpolators
    xn = np.asarray(nodes, dtype=float)
    u = c if ctx.chance(0.7) else c[0]
    rows = [lag.row(F(x)) for x in q]
    want = np.array([[float(sum(F(float(ci[j])) * r[j] for j in range(n))) for r in rows] for ci in np.atleast_2d(u)])
    scale = 1 + np.abs(u).max()
    leb = np.array([1 + float(sum(abs(v) for v in r)) for r in rows])
    b = ce.barycentricInterpolator(nodes if ctx.chance(0.5) else xn)
    for qq, w, l in ((np.array(q), want, leb), (q[0], want[:, :1], leb[:1])):
        got = np.asarray(b(u * p2, qq), float) / p2
        ctx.check(got.shape == (w.shape if u.ndim == 2 else w.shape[1:]), 'shape given by the barycentric interpolator', got=got.shape, values=u.shape, queries=np.shape(qq))
        ctx.check(np.all(np.abs(np.atleast_2d(got) - w) <= tol * scale * l ** 2), 'barycentric interpolator', got=got, want=w, nodes=nodes, u=u, q=qq)
        ctx.event('barycentric', n, np.ndim(u), np.ndim(qq))
    # Vandermonde: conditioning decides what double precision can promise
    V = np.vstack([xn ** k for k in range(n)])
    mags = np.array([max(1.0, abs(float(x))) for x in q])
    cond = np.linalg.cond(V)
    if cond < 1e7:
        pi = ce.polynomialInterpolator(np.asarray(nodes) if ctx.chance(0.5) else xn)
        P = np.vstack([np.array(q) ** k for k in range(n)])
        bound = 1e-13 * cond * scale * n * (1 + np.abs(P).sum(axis=0)) * leb
        got = np.asarray(recycled(ctx, lambda a: pi(a, np.array(q)), u * p2), float) / p2
        ctx.check(got.shape == (want.shape if u.ndim == 2 else want.shape[1:]), 'shape given by the polynomial interpolator', got=got.shape, values=u.shape)
        got = np.atleast_2d(got)
        if np.all(bound < 1e-2 * scale):
            ctx.check(got.shape == want.shape and np.all(np.abs(got - want) <= bound), 'polynomial interpolator', got=got, want=want, nodes=nodes, bound=bound)
            g1 = np.atleast_1d(np.asarray(pi(u * p2, q[0]), float) / p2).ravel()
            ctx.check(np.all(np.abs(g1 - want[:, 0]) <= bound[0]), 'polynomial interpolator, scalar query', got=g1, want=want[:, 0])
            ctx.event('vandermonde', n, np.ndim(u))


def high_order(ctx):
    """Chebyshev nodes of high order: stable in the Lagrange form."""
    n = ctx.int(10, 30)
    nodes = family_points(n, 'chebyshev') * ctx.pick([1, 2.5, 100, 0.01]) + ctx.pick([0, -1, 0.25])
    check_nodes(ctx, nodes, 1e-10, polys=False)


def live_bases(ctx):
    """Several bases alive at once, queried in random order."""
    sets = [gen_nodes(ctx) for _ in range(ctx.int(2, 5))]
    if ctx.chance(0.5):
        sets.append(sets[0] + 0.5)
    bases = [ce.PolynomialBasis(s) for s in sets]
    lags = [Lagrange(s) for s in sets]
    for _ in range(10):
        k = ctx.int(0, len(sets) - 1)
        x = gen_queries(ctx, sets[k], 1)[0]
        if not conditioned(lags[k], x):
            continue
        M = np.asarray(bases[k].interpolationMatrix(x))
        ex = lags[k].row(F(x))
        e, leb = fl(ex), float(sum(abs(v) for v in ex))
        ctx.check(M.shape == (1, len(e)) and np.all(np.abs(M[0] - e) <= TOL * (1 + leb) * np.maximum(np.abs(e), 1)), 'interpolation row with several bases', got=M, want=e, nodes=sets[k], x=x)
        ctx.event('interleaved', len(e), where(sets[k], x))


def rejects(ctx):
    for bad in (np.zeros((2, 2)), [], np.zeros((1, 2, 1))):
        try:
            ce.PolynomialBasis(bad)
        except Exception:
            ctx.event('rejected', 'nodes', np.shape(bad))
        else:
            ctx.fail('nodes of shape %s accepted' % (np.shape(bad),))
    b = ce.PolynomialBasis([0., 1., 2.])
    try:
        b.interpolationMatrix(np.zeros((2, 2)))
    except Exception:
        ctx.event('rejected', 'queries')
    else:
        ctx.fail('matrix of query points accepted')


WORKLOADS = {'matrix': (matrix, 1500, 40000), 'high_order': (high_order, 80, 1500), 'live_bases': (live_bases, 150, 4000), 'rejects': (rejects, 8, 8)}
REQUIRED = {'row': 4000, 'basis-poly': 2500, 'compose': 2500, 'compose-some': 1500, 'barycentric': 2000, 'vandermonde': 800, 'interleaved': 1000}
ASSUMPTIONS = ['rounding is bounded by 1e-11 times the Lebesgue-type magnitude of the exact rational result']
