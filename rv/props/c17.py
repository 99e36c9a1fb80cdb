"""Differential quadrature differentiates and integrates exactly."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..gennum import as_given, family_points, gen_grid

RULE = 'one distinct observation per (family, order, number of intervals, rows, kind of matrix)'


def run(ctx):
    family = ctx.pick(['chebyshev', 'radau'])
    if ctx.chance(0.1):
        family = 'legendre'      # one interval only: no point at its right end
    t = gen_grid(ctx, 1 if family == 'legendre' else 6).astype(float)
    n = len(t) - 1
    order = ctx.int(1, 7)
    m = ctx.int(1, 3) if ctx.chance(0.95) else ctx.int(4, 9)
    ctx.log('Pdq(%s, %d, %s), %d rows', t, order, family, m)
    pdq = ce.Pdq(as_given(ctx, t), poly_order=order, polynomial_type=family)
    tau = family_points(order, family)
    # on each interval a polynomial in s = (t - t_i) / h_i, continuous over the grid
    y = np.zeros((m, n * order + 1))
    dy = np.zeros((m, n * order))
    y[:, 0] = ctx.floats(m)
    hs = np.diff(t)
    first = y[:, 0].copy()
    for i in range(n):
        deg = ctx.int(0, order)
        c = ctx.np.normal(size=(m, deg + 1)) * 10.0 ** ctx.pick([0, 0, -2, 2])
        if ctx.chance(0.15):
            c[ctx.int(0, m - 1)] = 0
        if i:
            c[:, 0] = y[:, i * order]
        else:
            c[:, 0] = first
        P = np.vstack([tau ** k for k in range(deg + 1)])
        dP = np.vstack([k * tau ** (k - 1) if k else 0 * tau for k in range(deg + 1)])
        y[:, i * order:(i + 1) * order + 1] = np.dot(c, P)
        dy[:, i * order:(i + 1) * order] = np.dot(c, dP)[:, :-1] / hs[i]
    # rounding of the nodes (offset / width) limits the accuracy
    rel = 1e-9 * (1 + 1e-6 * np.abs(t).max() / hs.min())
    kind = ctx.pick(['np', 'DM', 'MX', 'SX'])
    # both operations are linear: a scale which is a power of 2 changes no digit
    p2 = 2.0 ** ctx.pick([0, 0, 0, -60, -35, 35])

    def apply(f, a):
        return scaled(f, a * p2) / p2

    def scaled(f, a):
        if kind in ('MX', 'SX'):
            s = getattr(cs, kind).sym('y', *a.shape)
            try:
                return cs.Function('f', [s], [f(s)])(a).full()
            except Exception:
                if kind == 'SX':         # integral() is written for MX
                    s = cs.MX.sym('y', *a.shape)
                    return cs.Function('f', [s], [f(s)])(a).full()
                raise
        r = f(cs.DM(a) if kind == 'DM' else a)
        if isinstance(r, cs.MX):
            r = cs.evalf(r)
        return cs.DM(r).full()

    got = apply(pdq.derivative, y)
    ctx.check(got.shape == dy.shape, 'shape of the derivative', got=got.shape, want=dy.shape)
    scale = np.repeat([np.abs(y[:, i * order:(i + 1) * order + 1]).max() for i in range(n)], order) / np.repeat(hs, order) * order ** 2 + 1e-300
    ctx.check(np.all(np.abs(got - dy) <= rel * scale), 'derivative', got=got, want=dy, t=t, order=order, family=family)
    ctx.event('derivative', family, order, n, m, kind)

    want = (y - y[:, :1])[:, 1:]
    got = apply(pdq.integral, dy)
    ctx.check(got.shape == want.shape, 'shape of the integral', got=got.shape, want=want.shape)
    # the inverse of the quadrature matrix is well conditioned relative to the interval length
    bound = rel * (np.cumsum(np.repeat([np.abs(dy[:, i * order:(i + 1) * order]).max() * hs[i] for i in range(n)], order)) + 1e-300) * 10 * order ** 2
    ctx.check(np.all(np.abs(got - want) <= bound), 'integral of the derivative', got=got, want=want, t=t, order=order, family=family, bound=bound)
    ctx.event('integral', family, order, n, m, kind)

    # round trip on arbitrary values
    v = ctx.floats(m, n * order)
    back = apply(pdq.derivative, np.hstack([np.zeros((m, 1)), apply(pdq.integral, v)]))
    s = np.abs(v).max() * order ** 4 * hs.max() / hs.min() + 1e-300
    ctx.check(back.shape == v.shape and np.all(np.abs(back - v) <= rel * s), 'derivative of the integral', got=back, want=v, t=t, order=order, family=family)
    ctx.event('round-trip', family, order, n, m)


WORKLOADS = {'run': (run, 700, 15000)}
REQUIRED = {'derivative': 500, 'integral': 500, 'round-trip': 500}
