"""Trajectory interpolation honours data and continuity."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..exact import F, Lagrange
from ..gennum import as_given, gen_grid, gen_grid_queries, piece_of, recycled

RULE = 'one distinct observation per (family, order, intervals, continuity, kind of query)'


class Model(object):
    """Exact interpolation of data on the grid of a Pdq."""
    def __init__(self, ctx):
        self.family = ctx.pick(['chebyshev', 'chebyshev', 'radau', 'legendre'])
        self.t = gen_grid(ctx, 1 if self.family == 'legendre' else 5)
        self.n = len(self.t) - 1
        self.order = ctx.int(1, 6)
        self.pdq = ce.Pdq(as_given(ctx, self.t), poly_order=self.order, polynomial_type=self.family)
        self.pts = np.array(self.pdq.collocationPoints, float)
        self.lag = {}

    def columns(self, cont):
        return len(self.pts) - (cont != 'both')

    def group(self, i, cont):
        """Points of interval i used, and their data columns."""
        g = list(range(i * self.order, (i + 1) * self.order + 1))
        if cont == 'left':
            return g[1:], [k - 1 for k in g[1:]]
        if cont == 'right':
            return g[:-1], g[:-1]
        return g, g

    def value(self, x, q, cont):
        i = piece_of(self.t, q, 'left' if cont == 'left' else 'right')
        g, cols = self.group(i, cont)
        key = (i, cont)
        if key not in self.lag:
            self.lag[key] = Lagrange(self.pts[g])
        row = self.lag[key].row(F(float(q)))
        v = np.array([float(sum(F(float(xk[c])) * r for c, r in zip(cols, row))) for xk in x])
        leb = 1 + float(sum(abs(r) for r in row))
        return v, 1e-11 * (np.abs(x[:, cols]).max() + 1e-300 if x.size else 0) * leb ** 2, i


def queries(ctx, md):
    q = gen_grid_queries(ctx, md.t)
    q += [float(ctx.pick(list(md.pts))) for _ in range(ctx.int(1, 3))]
    ctx.r.shuffle(q)
    return q


def qkind(md, q):
    if q in md.pts:
        return 'boundary' if q in list(md.t) else 'point'
    return 'outside' if q < md.t[0] or q > md.t[-1] else 'inside'


def interpolator(ctx):
    md = Model(ctx)
    cont = ctx.pick(['both', 'left', 'right', None])
    f = md.pdq.interpolator() if cont is None else (md.pdq.interpolator(continuity=cont) if ctx.chance(0.7) else md.pdq.interpolator(cont))
    cont = cont or 'both'
    m = ctx.int(1, 3) if ctx.chance(0.95) else ctx.int(4, 9)
    ctx.log('Pdq(%s, %d, %s) %s', md.t, md.order, md.family, cont)
    for _ in range(2):
        x = ctx.floats(m, md.columns(cont), scale=10.0 ** ctx.pick([0, 0, 0, -12, 12]))
        if ctx.chance(0.1) and np.abs(x).max() < 30:
            x = np.round(3 * x).astype(ctx.pick([int, np.int32, np.int8]))
        q = queries(ctx, md)
        arg = q[0] if ctx.chance(0.2) else np.array(q) if ctx.chance(0.7) else q
        got = np.asarray(recycled(ctx, lambda a: f(a, arg), x) if ctx.chance(0.5) else recycled(ctx, lambda a: f(x, a), arg), float)
        nq = 1 if np.ndim(arg) == 0 else len(q)
        ctx.check(got.shape == (m, nq), 'shape', got=got.shape, want=(m, nq))
        for j in range(nq):
            v, b, i = md.value(x, q[j], cont)
            ctx.check(np.all(np.abs(got[:, j] - v) <= b), 'value at %r, interval %d, continuity %s' % (q[j], i, cont), got=got[:, j], want=v, t=md.t, order=md.order, family=md.family)
            ctx.event('value', md.family, md.order, md.n, cont, qkind(md, q[j]))
        # exactly the data at data points: those of the side that is continuous
        off = 1 if cont == 'left' else 0
        k = ctx.int(0, md.columns(cont) - 1)
        g = np.asarray(f(x, float(md.pts[k + off])), float)
        own = md.value(x, float(md.pts[k + off]), cont)
        if md.family != 'legendre' and abs(md.pts[k + off] - md.t).min() > 0 or cont == 'both':
            ctx.check(np.all(np.abs(g[:, 0] - x[:, k]) <= 1e-12 * np.abs(x).max() + own[1]), 'data at data point %d' % k, got=g[:, 0], want=x[:, k], cont=cont, t=md.t)
            ctx.event('data', md.family, md.order, md.n, cont)
    for d in (-1, 1):
        try:
            r = f(ctx.floats(m, md.columns(cont) + d), float(md.t[0]))
        except Exception:
            ctx.event('rejected-columns', cont, d)
        else:
            ctx.fail('data with %d columns accepted, continuity %s' % (md.columns(cont) + d, cont), got=r, points=len(md.pts))
    for bad in ('Both', 'none', '', None, 0):
        try:
            r = md.pdq.interpolator(bad)
            r(x, float(md.t[0]))
        except Exception:
            ctx.event('rejected-option', bad)
        else:
            ctx.fail('continuity option %r accepted' % (bad,))


def boundaries(ctx):
    """One-sided limits at interior boundaries."""
    md = Model(ctx)
    if md.n < 2:
        return
    m = 2
    for cont in ('both', 'left', 'right'):
        f = md.pdq.interpolator(cont)
        x = ctx.np.normal(size=(m, md.columns(cont)))
        for b in np.asarray(md.t, float)[1:-1]:
            at = np.asarray(f(x, b), float)[:, 0]
            h = np.diff(np.asarray(md.t, float)).min() * 1e-7
            lo, hi = np.asarray(f(x, b - h), float)[:, 0], np.asarray(f(x, b + h), float)[:, 0]
            tol = 1e-3 * np.abs(x).max()
            if cont in ('both', 'left'):
                ctx.check(np.all(np.abs(at - lo) <= tol), 'continuity from the left at %r (%s)' % (b, cont), at=at, limit=lo, t=md.t, order=md.order)
            if cont in ('both', 'right'):
                ctx.check(np.all(np.abs(at - hi) <= tol), 'continuity from the right at %r (%s)' % (b, cont), at=at, limit=hi, t=md.t, order=md.order)
            ctx.event('limit', cont, md.family, md.order, md.n)


def trajectory(ctx):
    md = Model(ctx)
    nx, nz, nu = (ctx.int(1, 3), ctx.int(0, 2), ctx.int(0, 2)) if ctx.chance(0.93) else (ctx.int(4, 8), ctx.int(3, 6), ctx.int(3, 6))
    nt = len(md.pts)
    x, z, u = [ctx.floats(*a, scale=10.0 ** ctx.pick([0, 0, 0, -12, 12])) for a in ((nx, nt), (nz, nt - 1), (nu, nt - 1))]
    if ctx.chance(0.1):
        x, z, u = [np.round(3 * a).astype(int) if a.size and np.abs(a).max() < 1e6 else a for a in (x, z, u)]
    ctx.log('trajectory on Pdq(%s, %d, %s), nx=%d nz=%d nu=%d', md.t, md.order, md.family, nx, nz, nu)
    form = ctx.pick(['np', 'DM', '1d'])
    if form == 'DM':
        tr = ce.SystemTrajectory(cs.DM(x).full(), cs.DM(z).full(), cs.DM(u).full(), md.pdq)
    elif form == '1d':
        tr = ce.SystemTrajectory(*([a[0] if a.shape[0] == 1 else a for a in (x, z, u)] + [md.pdq]))
    else:
        tr = ce.SystemTrajectory(x, z, u, md.pdq)
    ctx.check(np.array_equal(np.asarray(tr.time, float), np.asarray(md.t, float)), 'time of the trajectory', got=tr.time)
    q = queries(ctx, md)
    for name, data, cont in ctx.r.sample([('state', x, 'both'), ('algState', z, 'right'), ('input', u, 'right')], 3):
        got = np.asarray(recycled(ctx, getattr(tr, name), np.array(q)), float)
        ctx.check(got.shape == (data.shape[0], len(q)), name + ': shape', got=got.shape)
        for j, s in enumerate(q):
            v, b, i = md.value(data, s, cont)
            ctx.check(np.all(np.abs(got[:, j] - v) <= b), '%s at %r' % (name, s), got=got[:, j], want=v, t=md.t, order=md.order, family=md.family)
            ctx.event('trajectory', name, md.family, md.order, md.n)
    bad = ctx.pick([(x[:, 1:], z, u), (x, z[:, 1:], u), (x, np.ones((1, nt)), u), (x, z, np.ones((1, nt))), (x, z, u[:, 1:])])
    try:
        ce.SystemTrajectory(bad[0], bad[1], bad[2], md.pdq)
    except Exception:
        ctx.event('trajectory-rejected')
    else:
        ctx.fail('trajectory data of shapes %s accepted for %d points' % ([np.shape(a) for a in bad], nt))


WORKLOADS = {'interpolator': (interpolator, 600, 15000), 'boundaries': (boundaries, 200, 4000), 'trajectory': (trajectory, 400, 8000)}
REQUIRED = {'value': 5000, 'data': 300, 'limit': 500, 'trajectory': 5000, 'rejected-columns': 800, 'trajectory-rejected': 200}
