"""Collocation grids have the documented nodes."""
import casadi as cs
import numpy as np
import casadi_extras as ce
import casadi_extras.collocation as cl

from ..exact import is_root, legendre, radau
from ..gennum import as_given, family_points, gen_grid

RULE = 'one distinct observation per (family, order, number of intervals)'
KNOWN = 'pdq-legendre-multi-interval'
POLY = {}


def poly(family, n):
    if (family, n) not in POLY:
        POLY[family, n] = legendre(n) if family == 'legendre' else radau(n)
    return POLY[family, n]


def points(ctx):
    family = ctx.pick(['chebyshev', 'legendre', 'radau'])
    order = ctx.int(1, 9) if family != 'chebyshev' else ctx.int(0, 30)
    p = np.asarray(cl.collocationPoints(order, family), float)
    ctx.check(p.shape == (order + 1,), 'number of points', got=p.shape, order=order, family=family)
    ctx.check(p[0] == 0 and np.all(np.diff(p) > 0) and p[-1] <= 1, 'points must increase from 0 within [0, 1]', got=p, family=family)
    if family == 'chebyshev':
        ctx.check(np.all(np.abs(p - family_points(order, family)) <= 1e-14), 'Chebyshev extrema', got=p)
    else:
        for x in p[1:]:
            ctx.check(is_root(poly(family, order), x), '%s point of order %d' % (family, order), got=x)
        if family == 'radau':
            ctx.check(abs(p[-1] - 1) < 1e-14, 'last Radau point', got=p[-1])
    ctx.event('points', family, order)


def grid(ctx):
    family = ctx.pick(['chebyshev', 'chebyshev', 'radau', 'radau', 'legendre'])
    t = gen_grid(ctx, 7)
    n = len(t) - 1
    order = ctx.int(1, 9 if n < 5 else 5)
    ctx.log('Pdq(%s, %d, %s)', t, order, family)
    kw = dict(poly_order=order, polynomial_type=family)
    if family == 'chebyshev' and ctx.chance(0.3):
        del kw['polynomial_type']
    if order == 5 and ctx.chance(0.3):
        del kw['poly_order']
    given = as_given(ctx, t)
    pdq = ce.Pdq(given, **kw)
    tau = family_points(order, family)
    per = [t[i] + (t[i + 1] - t[i]) * tau for i in range(n)]
    tol = 8 * 2.0 ** -52 * np.abs(t).max()
    if family == 'legendre':
        want = np.hstack(per)
        dropped = np.hstack([p[:-1] for p in per[:-1]] + [per[-1]])
    else:
        want = np.hstack([p[:-1] for p in per[:-1]] + [per[-1]])
    got = np.asarray(pdq.collocationPoints, float)
    ok = got.shape == want.shape and np.all(np.abs(got - want) <= tol)
    if not ok and family == 'legendre' and n > 1 and got.shape == dropped.shape and np.all(np.abs(got - dropped) <= tol):
        ctx.known(KNOWN, 'the last Legendre point of every interval but the last one is missing')
        ctx.event('known', order, n)
    else:
        ctx.check(ok, 'collocation points', got=got, want=want, t=t, order=order, family=family)
    ctx.check(np.all(np.diff(got) > 0), 'collocation points must increase', got=got)
    ctx.check(np.array_equal(np.asarray(pdq.intervalBounds, float), np.asarray(t, float)) and pdq.numIntervals == n and pdq.polyOrder == order,
              'interval bounds, number and order', got=(pdq.intervalBounds, pdq.numIntervals, pdq.polyOrder))
    ctx.check(pdq.t0 == got[0] and pdq.tf == got[-1] and abs(float(pdq.intervalLength()) - (got[-1] - got[0])) <= tol, 'first and last point, total length',
              got=(pdq.t0, pdq.tf, pdq.intervalLength()), points=got)
    if family != 'legendre':
        ctx.check(abs(got[0] - t[0]) <= tol and abs(got[-1] - t[-1]) <= tol, 'the grid must be spanned', got=(got[0], got[-1]), t=t)
        for b in t:
            ctx.check(np.sum(np.abs(got - b) <= tol) == 1, 'interval boundary must be exactly one point', boundary=b, got=got)
    ctx.event('grid', family, order, n)
    # inputs per interval, at the points of the interval
    nu = ctx.int(1, 3) if ctx.chance(0.95) else ctx.int(4, 9)
    u = ctx.np.normal(size=(nu, n))
    k = ctx.pick(['np', 'DM', 'MX', 'SX', 'int'])
    if k == 'int':
        u = ctx.np.integers(-5, 5, size=(nu, n)).astype(float)
    want = np.repeat(u, order, axis=1)
    if k in ('MX', 'SX'):
        s = getattr(cs, k).sym('u', nu, n)
        e = pdq.expandInput(s)
        got = cs.Function('f', [s], [e])(u).full()
    else:
        got = cs.DM(pdq.expandInput(cs.DM(u) if k == 'DM' else u)).full()
    ctx.check(got.shape == want.shape and np.array_equal(got, want), 'expanded input', got=got, want=want, order=order, n=n)
    ctx.event('input', k, nu, order, n)
    try:
        pdq.expandInput(ctx.np.normal(size=(nu, n + ctx.pick([-1, 1]))))
    except Exception:
        ctx.event('input-rejected', n)
    else:
        ctx.fail('input with a wrong number of intervals accepted', n=n)


WORKLOADS = {'points': (points, 500, 2000), 'grid': (grid, 1000, 25000)}
REQUIRED = {'points': 400, 'grid': 800, 'input': 800, 'input-rejected': 800}
