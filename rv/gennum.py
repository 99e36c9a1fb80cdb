"""Generation of node sets, grids, polynomials and query points."""
import casadi as cs
import numpy as np

import casadi_extras as ce


def family_points(order, family):
    """Normalized collocation points, without using the repository."""
    if family == 'chebyshev':
        return np.array([0.]) if order == 0 else np.sin(np.pi * np.arange(order + 1) / (2 * order)) ** 2
    return np.append(0., cs.collocation_points(order, family))


def gen_nodes(ctx, nmax=9):
    """Distinct nodes, in any order, any location and scale."""
    n = ctx.pick([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
    n = min(n, nmax)
    k = ctx.pick(['cheb', 'family', 'uniform', 'random', 'random', 'int', 'scaled', 'scaled', 'close', 'signed'])
    if k == 'cheb':
        x = np.sin(np.pi * np.arange(n) / (2 * max(n - 1, 1))) ** 2
    elif k == 'family':
        x = family_points(max(n - 1, 1), ctx.pick(['legendre', 'radau']))
    elif k == 'uniform':
        x = np.linspace(0, 1, n)
    elif k == 'int':
        x = np.array(ctx.r.sample(range(-6, 9), n))
        if ctx.chance(0.3):
            return x * 10 ** ctx.int(1, 7)
        if ctx.chance(0.2):
            return (x - x.min()).astype(ctx.pick([np.uint8, np.uint16, np.uint32, np.uint64]))
        if ctx.chance(0.2):
            return x.astype(ctx.pick([np.int8, np.int16, np.int32]))
        return x if ctx.chance(0.5) else x.astype(float)
    else:
        x = np.cumsum(ctx.np.uniform(0.3, 1.2, size=n))
        x = (x - x[0]) / max(x[-1] - x[0], 1)
    x = np.array(x, dtype=float)
    if k == 'scaled':
        x = x * 10.0 ** ctx.pick([-6, -3, -1, 1, 3, 5])
        if ctx.chance(0.5):
            x = x + ctx.pick([-1, 1]) * abs(x).max() * ctx.pick([0.1, 1, 3])
    if k == 'signed':
        x = 2 * x - 1
    if k == 'close' and n > 1:
        x[1] = x[0] + (x[1] - x[0]) * 10.0 ** -ctx.int(1, 4)
    if k in ('random', 'scaled', 'signed', 'close', 'uniform') and ctx.chance(0.5):
        ctx.np.shuffle(x)
    return x


def gen_queries(ctx, nodes, n=None):
    """Query points: nodes, neighbours of nodes, between, outside, far."""
    nodes = np.asarray(nodes, dtype=float)
    a, b = nodes.min(), nodes.max()
    w = (b - a) or (abs(a) or 1.0)
    q = []
    for _ in range(n or ctx.int(1, 7)):
        k = ctx.r.random()
        x = float(ctx.pick(list(nodes)))
        if k < 0.2:
            q.append(x)
        elif k < 0.3:
            q.append(float(np.nextafter(x, ctx.pick([-np.inf, np.inf]))))
        elif k < 0.42:
            q.append(x + ctx.pick([-1, 1]) * w * 10.0 ** -ctx.int(2, 14))
        elif k < 0.45 and 0.0 in nodes:
            q.append(ctx.pick([-1, 1]) * 10.0 ** -ctx.pick([30, 100, 200, 290, 310]))
        elif k < 0.85:
            q.append(a + w * ctx.r.random())
        else:
            q.append(a - w * ctx.r.random() if ctx.chance(0.5) else b + w * ctx.r.random())
    return q if n or ctx.chance(0.97) else many(ctx, q)


def many(ctx, q):
    """Up to 150 queries, some of them several times."""
    q = q * ctx.int(2, 150 // len(q))
    if ctx.chance(0.3):
        q.sort()
    else:
        ctx.r.shuffle(q)
    return q


def recycled(ctx, f, a):
    """f(a), sometimes after f of other numbers in the same array."""
    if not isinstance(a, np.ndarray) or a.dtype.kind != 'f' or not ctx.chance(0.3):
        return f(a)
    buf = a[::-1] + (np.ptp(a) or 1.) / 16
    f(buf)
    buf[...] = a
    return f(buf)


def gen_grid(ctx, nmax=5, family=None, huge=False):
    """Ascending interval grid."""
    n = ctx.pick([1, 1, 2, 2, 3, 4, 5, 7])
    n = min(n, nmax)
    if nmax >= 5 and ctx.chance(0.04):
        n = ctx.int(8, 40) if not huge or ctx.chance(0.7) else ctx.int(257, 330)
    k = ctx.pick(['unit', 'uniform', 'random', 'random', 'steep', 'shifted', 'int', 'negative', 'tiny', 'big', 'almost'])
    if k == 'unit':
        t = np.linspace(0, 1, n + 1)
    elif k == 'uniform':
        t = ctx.pick([0, 1, -2, 0.3]) + ctx.pick([0.1, 1, 0.7, 10]) * np.arange(n + 1.)
    elif k == 'int':
        t = np.cumsum([ctx.int(-3, 3)] + [ctx.int(1, 3) for _ in range(n)])
    else:
        h = ctx.np.uniform(0.2, 1.5, size=n)
        if k == 'almost':
            h = h[0] * (1 + ctx.np.integers(0, 9, size=n) * 10.0 ** -ctx.int(4, 8))
        if k == 'steep':
            h = h * 10.0 ** ctx.np.integers(-2, 3, size=n)
        t = np.append(0, np.cumsum(h))
        if k == 'shifted':
            t = t + ctx.pick([-100, 57.25, 1000, -3.3])
        if k == 'negative':
            t = t - t[-1] * ctx.pick([1, 0.5])
        if k == 'tiny':
            t = t * 1e-4
        if k == 'big':
            t = t * 1e4
    return t


def as_given(ctx, a):
    """The same vector in one of the accepted forms."""
    a = np.asarray(a)
    if a.dtype.kind == 'i' and a.size and np.abs(a).max() < 100 and ctx.chance(0.2):
        return a.astype(ctx.pick([np.int16, np.int32] + ([np.uint16] if a.min() >= 0 else [])))
    return ctx.pick([a, a, a, list(a), tuple(a)])


def gen_grid_queries(ctx, t, n=None):
    t = np.asarray(t, dtype=float)
    w = t[-1] - t[0]
    q = []
    for _ in range(n or ctx.int(1, 8)):
        k = ctx.r.random()
        b = float(ctx.pick(list(t)))
        if k < 0.3:
            q.append(b)
        elif k < 0.42:
            q.append(float(np.nextafter(b, ctx.pick([-np.inf, np.inf]))))
        elif k < 0.5:
            q.append(b + ctx.pick([-1, 1]) * w * 10.0 ** -ctx.int(3, 9))
        elif k < 0.85:
            q.append(t[0] + w * ctx.r.random())
        else:
            # Not farther than a few widths of the end interval: farther away the continued polynomial is ill-conditioned
            d = 0.5 * ctx.r.random()
            q.append(t[0] - d * min(w, 4 * (t[1] - t[0])) if ctx.chance(0.5) else t[-1] + d * min(w, 4 * (t[-1] - t[-2])))
    return q if n or ctx.chance(0.97) else many(ctx, q)


def piece_of(t, ti, side):
    """Interval containing ti: at interior boundaries from the given side; end pieces continued."""
    n = len(t) - 1
    i = 0
    for k in range(1, n):
        if (ti >= t[k]) if side == 'right' else (ti > t[k]):
            i = k
    return i
