"""Piecewise derivative and discretization follow the function."""
import numpy as np

from ..exact import F, der, fl, flm, val
from ..gennum import gen_grid_queries, piece_of, recycled
from .c15 import Piecewise

RULE = 'one distinct observation per (number of intervals, basis order, times differentiated / step class)'


def derivative(ctx):
    pw = Piecewise(ctx)
    f = pw.make(ctx)
    ctx.log('%s', pw.describe())
    n = len(pw.nodes)
    times = ctx.pick([1, 1, 1, 2, 3])
    g = f
    for _ in range(times):
        g = g.derivative()
    ctx.check(np.array_equal(np.asarray(g.intervals, float), np.asarray(pw.t, float)) and g.numIntervals == pw.n, 'intervals of the derivative', got=g.intervals)
    D = np.abs(flm(pw.lag.D()))
    dn = 1 + D.sum(axis=1).max()
    q = gen_grid_queries(ctx, pw.t)
    cont = ctx.pick(['right', 'left'])
    got = np.asarray(recycled(ctx, lambda a: g(a, continuity=cont), np.array(q)), float)
    ctx.check(got.shape == (pw.m, len(q)), 'shape of the derivative', got=got.shape)
    polys = [p for p in pw.lag.coef]
    for _ in range(times):
        polys = [der(p) for p in polys]
    for j, x in enumerate(q):
        i = piece_of(pw.t, x, cont)
        h = F(float(pw.t[i + 1])) - F(float(pw.t[i]))
        tau = pw.tau(i, x)
        row = [val(p, tau) / h ** times for p in polys]
        want = np.array([float(sum(F(float(c)) * r for c, r in zip(ci, row))) for ci in pw.c[i]])
        leb = 1 + float(sum(abs(r) for r in pw.lag.row(tau)))
        b = 1e-11 * (np.abs(pw.c[i]).max() + 1e-300) * (dn / float(h)) ** times * leb ** 2
        ctx.check(np.all(np.abs(got[:, j] - want) <= b), 'derivative %d at %r' % (times, x), got=got[:, j], want=want, f=pw.describe())
        ctx.event('derivative', pw.n, n, times, cont)
    # the original is still the original
    x = gen_grid_queries(ctx, pw.t, 1)[0]
    v, b = pw.at(piece_of(pw.t, x, 'right'), x)
    ctx.check(np.all(np.abs(np.asarray(f(x))[:, 0] - v) <= b), 'the function after differentiation')


def discretize(ctx):
    pw = Piecewise(ctx)
    f = pw.make(ctx)
    h = np.diff(np.asarray(pw.t, float))
    k = ctx.pick(['larger', 'dividing', 'dividing', 'any', 'any', 'equal', 'nearly', 'third'])
    base = float(h[ctx.int(0, pw.n - 1)])
    step = {'larger': float(pw.t[-1] - pw.t[0]) * 1.5, 'dividing': base / ctx.int(2, 12), 'any': base * ctx.r.uniform(0.05, 1.3), 'equal': base,
            'nearly': base / ctx.int(1, 9) * (1 + ctx.pick([-1, 1]) * 10.0 ** -ctx.int(10, 16)), 'third': float(h.max()) / 3}[k]
    step = max(step, float(h.max()) * max(1, pw.n / 7) / 300)
    ctx.log('%s step=%r', pw.describe(), step)
    x, y = f.discretize(step)
    x, y = np.asarray(x, float), np.asarray(y, float)
    ctx.check(x.ndim == 1 and y.shape == (pw.m, x.size), 'shapes', got=(x.shape, y.shape))
    tol = 1e-12 * np.abs(np.asarray(pw.t, float)).max() + 1e-12 * h.min()
    # assign the points to intervals: of the points at an interior boundary the last one opens the next interval
    pos = 0
    for i in range(pw.n):
        a, b = float(pw.t[i]), float(pw.t[i + 1])
        end = pos
        while end < x.size and x[end] <= b + tol:
            end += 1
        if i < pw.n - 1:
            end -= 1
            ctx.check(end > pos and abs(x[end] - b) <= tol, 'interval %d does not start with its left end' % (i + 1), x=x, t=pw.t, step=step)
        xs = x[pos:end]
        ctx.check(xs.size >= 2, 'both ends of interval %d must be there' % i, got=xs, t=pw.t, step=step)
        ctx.check(abs(xs[0] - a) <= tol and abs(xs[-1] - b) <= tol, 'ends of interval %d' % i, got=xs, t=pw.t, step=step)
        d = np.diff(xs)
        ctx.check(np.all(d >= -tol), 'points must ascend', got=xs, step=step)
        ctx.check(np.all(d <= step * (1 + 1e-9) + tol), 'points further apart than the step', got=xs, step=step)
        for j in range(pos, end):
            v, bnd = pw.at(i, x[j])
            slope = np.abs(pw.c[i]).max() * 4 * (1 + np.abs(flm(pw.lag.D())).max()) / (b - a) * 2 * tol
            ctx.check(np.all(np.abs(y[:, j] - v) <= bnd + slope), 'value at %r in interval %d' % (x[j], i), got=y[:, j], want=v, f=pw.describe(), step=step)
        ctx.event('interval', pw.n, i, k, xs.size)
        pos = end
    ctx.check(pos == x.size, 'points beyond the last interval', got=x[pos:], t=pw.t, step=step)
    ctx.event('discretized', pw.n, len(pw.nodes), k)


WORKLOADS = {'derivative': (derivative, 1000, 25000), 'discretize': (discretize, 500, 12000)}
REQUIRED = {'derivative': 3000, 'interval': 1000, 'discretized': 400}
