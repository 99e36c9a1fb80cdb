"""Piecewise polynomials evaluate the right piece."""
import casadi as cs
import numpy as np
import casadi_extras.collocation as cl

from ..exact import F, Lagrange, fl
from ..gennum import as_given, family_points, gen_grid, gen_grid_queries, piece_of, recycled

RULE = 'one distinct observation per (number of intervals, basis order, components, kind of query, continuity)'
TOL = 1e-11


def gen_basis(ctx):
    """Nodes in [0, 1]."""
    k = ctx.pick(['cheb', 'leg', 'rad', 'radonly', 'uniform', 'random', 'const'])
    n = ctx.int(1, 6)
    if k == 'cheb':
        x = family_points(n, 'chebyshev')
    elif k == 'leg':
        x = family_points(n, 'legendre')
    elif k == 'rad':
        x = family_points(n, 'radau')
    elif k == 'radonly':
        x = family_points(n, 'radau')[1:]
    elif k == 'uniform':
        x = np.linspace(0, 1, n + 1)
    elif k == 'const':
        x = np.array([ctx.pick([0., 0.5, 1.])])
    else:
        x = np.cumsum(ctx.np.uniform(0.3, 1, size=n + 1))
        x = (x - x[0] * ctx.r.random()) / x[-1]
        if ctx.chance(0.3):
            ctx.np.shuffle(x)
    return x


def gen_coef(ctx, m, n, integer=None):
    c = ctx.floats(m, n, scale=10.0 ** ctx.pick([0, 0, 0, -3, 3, -12, 12]) if integer is None else 1.)
    if ctx.chance(0.2):
        c[ctx.int(0, m - 1)] = 0
    if ctx.chance(0.2):
        c[ctx.int(0, m - 1)] = ctx.r.uniform(-2, 2)     # constant component
    if integer:
        c = np.round(3 * c).astype(integer)
    return c


class Piecewise(object):
    """Exact model of a piecewise polynomial."""
    def __init__(self, ctx, m=None):
        self.t = gen_grid(ctx, 6, huge=True)
        self.n = len(self.t) - 1
        self.nodes = gen_basis(ctx)
        self.lag = Lagrange(self.nodes)
        self.m = m or (ctx.int(1, 3) if ctx.chance(0.93) else ctx.int(4, 9))
        integer = ctx.pick([int, np.int32, np.int8]) if ctx.chance(0.1) else None
        self.c = [gen_coef(ctx, self.m, len(self.nodes), integer if ctx.chance(0.9) else None) for _ in range(self.n)]

    def make(self, ctx):
        b = cl.PolynomialBasis(self.nodes)
        form = ctx.pick(['np', 'np', 'tuple', 'F'])
        c = [np.asfortranarray(x) if form == 'F' else x for x in self.c]
        return cl.PiecewisePoly(as_given(ctx, self.t), tuple(c) if form == 'tuple' else c, b)

    def tau(self, i, t):
        a, b = F(float(self.t[i])), F(float(self.t[i + 1]))
        return (F(float(t)) - a) / (b - a)

    def at(self, i, t):
        """Exact value of piece i at t and a bound of its rounding error."""
        row = self.lag.row(self.tau(i, t))
        v = np.array([float(sum(F(float(x)) * r for x, r in zip(ci, row))) for ci in self.c[i]])
        leb = 1 + float(sum(abs(r) for r in row))
        return v, TOL * (np.abs(self.c[i]).max() + 1e-300) * leb ** 2

    def describe(self):
        return 't=%s nodes=%s c=%s' % (list(self.t), list(self.nodes), [x.tolist() for x in self.c])


def kind(t, q):
    if q in list(t)[1:-1]:
        return 'boundary'
    if q < t[0] or q > t[-1]:
        return 'outside'
    if q in (t[0], t[-1]):
        return 'end'
    return 'inside'


def evaluate(ctx):
    pw = Piecewise(ctx)
    f = pw.make(ctx)
    ctx.log('%s', pw.describe())
    ctx.check(f.numIntervals == pw.n and np.array_equal(np.asarray(f.intervals, float), np.asarray(pw.t, float)), 'intervals', got=f.intervals)
    for _ in range(2):
        q = gen_grid_queries(ctx, pw.t)
        cont = ctx.pick([None, 'right', 'left'])
        arg = q[0] if len(q) == 1 and ctx.chance(0.7) else (q if ctx.chance(0.3) else np.array(q))
        byname = ctx.chance(0.7)
        got = np.asarray(recycled(ctx, lambda a: f(a) if cont is None else f(a, continuity=cont) if byname else f(a, cont), arg), float)
        ctx.check(got.shape == (pw.m, len(q)), 'shape of the values', got=got.shape, want=(pw.m, len(q)))
        for j, x in enumerate(q):
            i = piece_of(pw.t, x, cont or 'right')
            v, b = pw.at(i, x)
            ctx.check(np.all(np.abs(got[:, j] - v) <= b), 'value at %r (piece %d, continuity %s)' % (x, i, cont), got=got[:, j], want=v, f=pw.describe())
            ctx.event('value', pw.n, len(pw.nodes), pw.m, kind(pw.t, x), cont)
    for bad in ('both', 'Left', None, ''):
        try:
            f(pw.t[0], continuity=bad)
        except Exception:
            ctx.event('rejected', bad)
        else:
            ctx.fail('continuity %r accepted' % bad)


def pieces(ctx):
    """poly(n) for every interval and component."""
    pw = Piecewise(ctx)
    f = pw.make(ctx)
    ctx.log('%s', pw.describe())
    for i in range(pw.n) if pw.n < 50 else ctx.r.sample(range(pw.n), 20):
        ps = f.poly(i)
        ctx.check(len(ps) == pw.m, 'number of polynomials', got=len(ps), want=pw.m)
        h = F(float(pw.t[i + 1])) - F(float(pw.t[i]))
        for s in (0., 1., ctx.r.random(), ctx.r.random(), ctx.r.uniform(-0.5, 1.5)):
            dt = s * float(h)
            tau = F(dt) / h
            row, bnd = pw.lag.row(tau), fl(pw.lag.absrow(tau))
            for k in range(pw.m):
                want = float(sum(F(float(x)) * r for x, r in zip(pw.c[i][k], row)))
                b = 1e-11 * np.dot(np.abs(pw.c[i][k]), bnd) + 1e-300
                got = float(ps[k](dt))
                ctx.check(abs(got - want) <= b, 'poly(%d)[%d] at %r' % (i, k, dt), got=got, want=want, f=pw.describe())
                c = pw.c[i][k]
                ctx.event('poly', pw.n, i, len(pw.nodes), 'zero' if not c.any() else 'constant' if len(set(c)) == 1 else 'general')


def constructor(ctx):
    pw = Piecewise(ctx)
    b = cl.PolynomialBasis(pw.nodes)
    for t, c in ((pw.t, pw.c[:-1]), (pw.t, pw.c + [pw.c[0]]), (pw.t[:1], []), ([], [])):
        try:
            cl.PiecewisePoly(t, c, b)
        except Exception:
            ctx.event('rejected', len(t), len(c))
        else:
            ctx.fail('%d points with %d coefficient matrices accepted' % (len(t), len(c)))


WORKLOADS = {'evaluate': (evaluate, 1000, 25000), 'pieces': (pieces, 500, 12000), 'constructor': (constructor, 30, 100)}
REQUIRED = {'value': 6000, 'poly': 5000, 'rejected': 100}
