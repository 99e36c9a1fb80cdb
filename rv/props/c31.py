"""Results depend only on the arguments.

A case keeps several live objects.  Every operation on them is executed once
(its result is digested), then operations are repeated in random order; each
result must have the first digest, the arguments must be as they were, and the
returned arrays are overwritten before going on.

In `alone`, the same operations are also executed in processes forked before
any object was made, each of which makes one object only: what was made or
done before must not matter.

In `own`, the arrays and lists an object was made from are modified
afterwards: the object must not change.
"""
import os
import pickle
import random

import casadi as cs
import numpy as np
import casadi_extras as ce
import casadi_extras.collocation as cl
from casadi_extras import dae_model, inequality

from ..core import Harness
from ..gendae import easy_steps, gen_model
from ..gennum import family_points
from .c30 import Part

RULE = 'one distinct observation per (operation, operation executed before it)'


def digest(v):
    """Value of a result or argument, comparable with ==."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, (int, float, np.number)):
        return ('number', repr(float(v)))
    if isinstance(v, np.ndarray):
        return ('array', v.shape, np.asarray(v, float).tobytes())
    if isinstance(v, cs.DM):
        return ('DM', v.shape, v.full().tobytes())
    if isinstance(v, np.poly1d):
        return ('poly', tuple(float(c) for c in v.coef))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(digest(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((k, digest(x)) for k, x in v.items())
    raise Harness('cannot digest %s' % type(v).__name__)


def trash(v):
    """Overwrite every array in a result."""
    n = 0
    if isinstance(v, np.ndarray) and v.size:
        if not v.flags.writeable:
            return 0
        v[...] = 777
        n = 1
    elif isinstance(v, cs.DM) and v.numel():
        v[:, :] = 777
        n = 1
    elif isinstance(v, np.poly1d):
        v.coef[...] = 777
        n = 1
    elif isinstance(v, list):
        n = sum(trash(x) for x in v)
        v.append(777)
    elif isinstance(v, tuple):
        n = sum(trash(x) for x in v)
    elif isinstance(v, dict):
        n = sum(trash(x) for x in v.values())
    return n


class Op(object):
    def __init__(self, name, call, args=(), keep=False):
        self.name, self.call, self.args, self.keep = name, call, args, keep
        self.before = digest(list(args))


def evalf(f, ctx):
    """Digestible evaluation of a CasADi function at a fixed point."""
    pts = [cs.DM(np.sin(1.0 + np.arange(f.numel_in(i)))).reshape(f.size_in(i)) for i in range(f.n_in())]
    return lambda: [a.full() for a in f.call(pts)]


class Common(object):
    """What the objects of one case have in common: ends, numbers of points, orders, hence whatever a careless cache is keyed by."""
    def __init__(self, ctx):
        self.n = ctx.int(2, 4)
        self.a, self.b = ctx.pick([(0., 1.), (0., 1.), (-1., 1.), (0.5, 2.)])
        self.order = ctx.int(2, 4)
        self.method = ctx.pick(['legendre', 'radau', None])
        self.kinds = [k for k in KINDS if k != 'integrator'] if ctx.chance(0.3) else [ctx.pick(KINDS)]
        self.ids = [ctx.int(0, 10 ** 9) for _ in range(ctx.int(2, 4))]

    def inner(self, r):
        return np.concatenate([[self.a], self.a + (self.b - self.a) * np.sort(r.permutation(np.arange(1, 20))[:self.n - 1]) / 20., [self.b]])


def gen_ops(ctx, common=None):
    """Operations on one new live object (or a pure function)."""
    r, kind = ctx.np, ctx.pick(common.kinds if common else KINDS)
    nodes = np.sort(ctx.r.sample(range(20), ctx.int(2, 5))) / ctx.pick([1., 7., 20.])
    grid = np.cumsum(np.append(ctx.pick([0., -1., 2.]), r.uniform(0.2, 1.5, size=ctx.int(1, 4))))
    if common:
        nodes, grid = common.inner(r), common.inner(r)
    if kind == 'points':
        n, m = common.order if common else ctx.int(1, 6), ctx.pick(['chebyshev', 'legendre', 'radau'])
        return [Op('collocationPoints', lambda: cl.collocationPoints(n, m))]
    if kind == 'cheb':
        n, a = ctx.int(1, 6), float(r.normal())
        return [Op('cheb', lambda: ce.cheb(n, a, a + 1.5))]
    if kind == 'basis':
        b = cl.PolynomialBasis(nodes)
        q = r.uniform(-0.5, 1.5, size=3)
        q[0] = nodes[0]
        c = r.normal(size=(2, nodes.size))
        return [Op('PolynomialBasis', lambda: (lambda p: [p.D, p.tau.copy(), list(p.poly)])(cl.PolynomialBasis(nodes)), [nodes]),
                Op('interpolationMatrix', lambda: b.interpolationMatrix(q), [q, nodes]), Op('compose', lambda: b.compose(c), [c, nodes]),
                Op('basis attributes', lambda: [b.D.copy(), b.tau.copy(), [x.coef.copy() for x in b.poly], b.order, b.numPoints])]
    if kind == 'tableau':
        tau = family_points(nodes.size, 'legendre')[1:]
        n, m = common.order if common else ctx.int(1, 5), common and common.method or ctx.pick(['legendre', 'radau'])
        A, bb = r.normal(size=(3, 3)), r.normal(size=3)
        full = lambda t: [np.array(t.A), np.array(t.b), np.array(t.c)]
        own = lambda t: [np.asarray(t.A), np.asarray(t.b), np.array(t.c)]
        return [Op('tableau for points', lambda: own(cl.butcherTableuForCollocationPoints(tau)), [tau]),
                Op('tableau for method', lambda: own(cl.butcherTableuForCollocationMethod(n, m))),
                Op('ButcherTableau', lambda: full(cl.ButcherTableau(A, bb, nodes[:1].repeat(3))), [A, bb])]
    if kind == 'interpolators':
        u = r.normal(size=(2, nodes.size))
        q = r.uniform(0, 1, size=4)
        f, g = cl.polynomialInterpolator(nodes), cl.barycentricInterpolator(nodes)
        return [Op('polynomialInterpolator', lambda: f(u, q), [u, q, nodes]), Op('barycentricInterpolator', lambda: g(u, q), [u, q, nodes])]
    if kind == 'piecewise':
        tau = np.append(0, family_points(3, 'legendre')[1:])
        c = [r.normal(size=(2, 4)) for _ in range(grid.size - 1)]
        f = cl.PiecewisePoly(grid, c, cl.PolynomialBasis(tau))
        d = f.derivative()
        q = np.append(grid[:2], r.uniform(grid[0], grid[-1], size=2))
        args = [grid, c, q]
        return [Op('PiecewisePoly()', lambda: f(q), args), Op('PiecewisePoly(left)', lambda: f(q, 'left'), args), Op('discretize', lambda: f.discretize(0.3), args),
                Op('poly', lambda: f.poly(0), args), Op('derivative()', lambda: d(q), args), Op('derivative', lambda: f.derivative()(q), args),
                Op('second derivative', lambda: f.derivative().derivative()(q), args)]
    if kind == 'pdq':
        order = common.order if common else ctx.int(2, 4)
        p = ce.Pdq(grid, order) if ctx.chance(0.7) else ce.Pdq(grid, order, ctx.pick(['chebyshev', 'radau']))
        n = order * (grid.size - 1) + 1
        y, dy, u = cs.DM(r.normal(size=(2, n))), cs.DM(r.normal(size=(2, n - 1))), cs.DM(r.normal(size=(2, grid.size - 1)))
        yn = r.normal(size=(2, n))
        q = np.append(grid[:1], r.uniform(grid[0], grid[-1], size=2))
        f, g = p.interpolator(), p.interpolator(continuity='right')
        h = p.interpolator(continuity='left')
        args = [grid, y, dy, u, yn, q]
        return [Op('Pdq', lambda: np.asarray(ce.Pdq(grid, order).collocationPoints), args), Op('Pdq new', lambda: ce.Pdq(grid, order).interpolator('left')(yn[:, 1:], q), args),
                Op('Pdq.derivative', lambda: cs.evalf(p.derivative(y)), args), Op('Pdq.integral', lambda: cs.evalf(p.integral(dy)), args),
                Op('Pdq.expandInput', lambda: p.expandInput(u), args), Op('Pdq both', lambda: f(yn, q), args), Op('Pdq right', lambda: g(yn[:, 1:], q), [grid, q, yn]),
                Op('Pdq left', lambda: h(yn[:, 1:], q), [grid, q, yn]), Op('Pdq grid', lambda: [np.array(p.collocationPoints), np.array(p.intervalBounds), p.t0, p.tf, p.intervalLength()], [grid])]
    if kind == 'trajectory':
        order = common.order if common else ctx.int(2, 3)
        p = ce.Pdq(grid, order)
        n = order * (grid.size - 1) + 1
        x, z, u = r.normal(size=(2, n)), r.normal(size=(1, n - 1)), r.normal(size=(2, n - 1))
        s = ce.SystemTrajectory(x, z, u, p)
        q = r.uniform(grid[0], grid[-1], size=3)
        args = [grid, x, z, u, q]
        return [Op('state', lambda: s.state(q), args), Op('algState', lambda: s.algState(q), args), Op('input', lambda: s.input(q), args), Op('time', lambda: np.array(s.time), args)]
    if kind == 'scheme':
        m = gen_model(ctx, tdp=0)
        dae = m.dae()
        order, method = common.order if common else ctx.int(1, 3), common and common.method or ctx.pick(['legendre', 'radau'])
        opt = {}

        def residual():
            s = ce.CollocationScheme(dae, t=grid, order=order, method=method, options=opt)
            return evalf(cs.Function('s', [s.x, s.K, s.Z, s.u, s.p], [s.eq.cat, s.X, s.q, s.Q]), ctx)() + [np.asarray(s.tc)]
        s0 = ce.CollocationScheme(dae, t=grid, order=order, method=method)
        live = evalf(cs.Function('s', [s0.x, s0.K, s0.Z, s0.u, s0.p], [s0.eq.cat, s0.X, s0.q, s0.Q]), ctx)
        N = grid.size - 1
        x, K = cs.DM(r.normal(size=(m.n['x'], N + 1))), cs.DM(r.normal(size=(m.n['x'], N * order)))
        q = r.uniform(grid[0], grid[-1], size=3)
        what = ['x', 'K', 'Z', 'u', 'p', 'eq', 'q']
        return [Op('CollocationScheme', residual, [grid, opt]), Op('scheme live', live, [grid]),
                Op('combine', lambda: int(s0.combine(what).size), [what]), Op('piecewisePolyX', lambda: s0.piecewisePolyX(x, K)(q), [x, K, q, grid]),
                Op('evalX', lambda: s0.evalX(x, K), [x, K])]
    if kind == 'integrator':
        m = gen_model(ctx, solvable=True, tdp=0)
        dae = m.dae()
        g = easy_steps(ctx, [m], grid, 1.2)
        n, N = m.n, g.size - 1
        f = ce.collocationIntegrator('f', dae, t=g, order=2, method='radau')
        a = dict(x0=r.normal(size=n['x']), z0=np.zeros(n['z']), u=r.normal(size=(n['u'], N)), p=r.normal(size=n['p']))
        names = ['xf', 'qf', 'X', 'Z', 'Q', 'x', 'K', 'tc']
        pick = lambda d: [d[k] for k in names]
        q = r.uniform(g[0], g[-1], size=3)
        return [Op('integrator', lambda: pick(f(**a)), [a, g]), Op('integrate', lambda: pick(f.integrate(**a)), [a, g]),
                Op('x_traj', lambda: f.integrate(**a)['x_traj'](q), [a, g, q])]
    if kind == 'model':
        m = gen_model(ctx)
        d = m.dae()
        ins = ['x', 'z', 'u', 'p', 't', 'tdp'] + (['xdot'] if m.kind == 'implicit' else [])
        outs = ['ode', 'alg', 'quad'] if m.kind == 'semi' else ['dae', 'quad']
        kw = dict(m.sym, **m.expr)
        names = sorted(kw)
        return [Op('createFunction', lambda: evalf(d.createFunction('f', ins, outs), ctx)(), [ins, outs]),
                Op('makeImplicit', lambda: evalf(d.makeImplicit().createFunction('f', ['xdot', 'x', 'z', 'u', 'p', 't', 'tdp'], ['dae', 'quad']), ctx)(), []),
                Op('sizes', lambda: [d.nx, d.nz, d.nu, d.np, d.ntdp, d.nq])]
    if kind == 'parallel':
        ms = [gen_model(ctx, kind='semi', time=False).dae() for _ in range(ctx.int(1, 3))]
        f = lambda: evalf(dae_model.parallel(ms).createFunction('f', ['x', 'z', 'u', 'p', 'tdp'], ['ode', 'alg', 'quad']), ctx)()
        return [Op('parallel', f, [[m.nx for m in ms]]), Op('number of models', lambda: len(ms))]
    if kind == 'inequality':
        n = ctx.int(1, 3)
        e = cs.MX.sym('e', n)
        lb, ub, nom = r.normal(size=(n, 1)), cs.DM(r.normal(size=n)), [float(x) for x in r.normal(size=n)]
        live = ce.Inequality(e, lb=lb, ub=ub, nominal=nom)
        val = lambda q: [cs.DM(q.lb).full(), cs.DM(q.ub).full(), None if q.nominal is None else cs.DM(q.nominal).full(), q.numel()]
        return [Op('Inequality', lambda: val(ce.Inequality(e, lb=lb, ub=ub, nominal=nom)), [lb, ub, nom]), Op('Inequality live', lambda: val(live), [lb, ub, nom]),
                Op('Inequality default bounds', lambda: val(ce.Inequality(e))), Op('empty', lambda: val(ce.Inequality()) + val(ce.BoundedVariable())),
                Op('BoundedVariable', lambda: val(ce.BoundedVariable('v', lb=lb, ub=ub, nominal=cs.DM(nom))), [lb, ub, nom])]
    if kind == 'vertcat':
        v = cs.MX.sym('v', 2)
        ctx.case_nominal = ctx.pick([0., 1.])
        ps = [Part(ctx, v, (ctx.int(1, 2), 1)) for _ in range(ctx.int(1, 3))]
        l, d = [p.ineq for p in ps], {'k%d' % i: p.ineq for i, p in enumerate(ps)}

        def val(q):
            num = lambda x: None if x is None else cs.DM(x.cat if hasattr(x, 'cat') else x).full()
            ex = q.expr.cat if hasattr(q.expr, 'cat') else q.expr
            return [num(q.lb), num(q.ub), num(q.nominal)] + evalf(cs.Function('f', [v], [ex]), ctx)()
        return [Op('vertcat list', lambda: val(inequality.vertcat(l))), Op('vertcat dict', lambda: val(inequality.vertcat(d)), [list(d)]), Op('vertcat parts', lambda: [x for q in l for x in val(q)])]
    if kind == 'struct':
        rep = ctx.pick([[2, 2], [3], 2])
        es = [ce.entry('a', shape=(2, 2), repeat=rep), ce.entry('b', shape=3), ce.entry('c', shape=cs.Sparsity.lower(2))]
        if ctx.chance(0.5):
            es.append(ce.entry('d', struct=ce.struct(['p', ce.entry('q', shape=2)])))
        T = ctx.pick([ce.struct_symMX, ce.struct_symSX, ce.struct])
        s = T(es)
        base = T(es)
        v = cs.DM(np.arange(float(base.size)))
        inst = base(v)
        lists = [rep] if isinstance(rep, list) else []
        mode = ctx.pick([0, 1, 2])
        simple = T([ce.entry('b', shape=3), 'e'])
        dd = {'e': cs.DM(5.), 'b': cs.DM([1., 2., 3.])}
        out = [Op('struct', lambda: view(T(es)), lists), Op('struct live', lambda: view(s), lists), Op('struct twice', lambda: view(T([ce.entry('one', struct=base), ce.entry('two', struct=base)])), lists),
               Op('instantiate dict', lambda: simple(dd).cat.full(), [dd]), Op('instantiate number', lambda: base(3).cat.full()),
               Op('read entry', lambda: cs.DM(inst['b']).full(), [v]), Op('read flat', lambda: inst.cat.full(), [v]),
               Op('index f', lambda: [base.f['b'], base.f[['a', 'b']]]), Op('index i', lambda: [base.i['b'], base.i['a'], base.i[...]]),
               Op('canonical', lambda: [str(base.getCanonicalIndex(i)) for i in range(int(base.size))]), Op('canonical indices', lambda: base.canonicalIndices(extraMode=mode))]
        return out
    raise Harness(kind)


def view(s):
    return [s.keys(), s.struct.keys(), int(s.size), s.labels()]


KINDS = ['points', 'cheb', 'basis', 'basis', 'tableau', 'interpolators', 'piecewise', 'piecewise', 'pdq', 'pdq', 'trajectory', 'scheme', 'integrator', 'model', 'model', 'parallel',
         'inequality', 'inequality', 'vertcat', 'struct', 'struct']


def history(ctx):
    pool = [op for _ in range(ctx.int(2, 4)) for op in gen_ops(ctx)]
    first = {}
    prev = 'none'
    for step in range(ctx.int(15, 40)):
        i = ctx.int(0, len(pool) - 1)
        op = pool[i]
        r = op.call()
        d = digest(r)
        ctx.log('%d: %s', step, op.name)
        if i in first:
            ctx.check(d == first[i], '%s gives another result when repeated (after %s)' % (op.name, prev), got=r, first=first[i])
            ctx.event('repeated', op.name, prev)
        else:
            first[i] = d
        after = digest(list(op.args))
        ctx.check(after == op.before, '%s changed its arguments' % op.name, got=op.args)
        if op.args:
            ctx.event('arguments', op.name)
        if ctx.chance(0.7) and trash(r):
            ctx.check(digest(list(op.args)) == op.before, 'the result of %s shares memory with its arguments' % op.name, got=op.args)
            ctx.event('overwritten', op.name)
        prev = op.name


def close(a, b):
    """Digests of two processes: equal up to rounding."""
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        if len(a) == 2 == len(b) and a[0] == b[0] == 'number':
            return close(np.float64(a[1]).tobytes(), np.float64(b[1]).tobytes())
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, bytes):
        if a == b:
            return True
        if len(a) != len(b):
            return False
        x, y = np.frombuffer(a), np.frombuffer(b)
        m = np.isfinite(x)
        return np.array_equal(m, np.isfinite(y)) and np.all(np.abs(x - y)[m] <= 1e-9 * (1e-12 + np.abs(x[m]).max(initial=0)))
    if isinstance(a, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) or (a != a and b != b)
    return a == b


def seeded_ops(ctx, common, s):
    ctx.r, ctx.np = random.Random(s), np.random.default_rng(s)
    return gen_ops(ctx, common)


def alone_in(ctx, common, s):
    """Digests of the operations on one object, computed in a child process that makes nothing else."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = [(op.name, digest(op.call())) for op in seeded_ops(ctx, common, s)]
            except Exception as e:
                out = repr(e)
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        ctx.fail('the interpreter died')
    out = pickle.loads(data)
    ctx.check(not isinstance(out, str), 'exception in a fresh process: %s' % (out,))
    return out


def alone(ctx):
    common = Common(ctx)
    ctx.log('objects of kinds %s', common.kinds)
    want = [alone_in(ctx, common, s) for s in common.ids]
    pool = [seeded_ops(ctx, common, s) for s in common.ids]
    for ops, w in zip(pool, want):
        if [op.name for op in ops] != [x[0] for x in w]:
            raise Harness('other operations in the child process')
    todo = [(i, j) for i, ops in enumerate(pool) for j in range(len(ops))]
    ctx.r.shuffle(todo)
    for i, j in todo:
        op = pool[i][j]
        d = digest(op.call())
        ctx.check(close(d, want[i][j][1]), '%s gives another result than in a process that does nothing else' % op.name, got=d, alone=want[i][j][1])
        ctx.event('alone', op.name, len(pool))


def spoil(ctx, v):
    """Modify a container of the caller."""
    if isinstance(v, np.ndarray):
        v[...] = v[..., ::-1] * 3 + 1 if ctx.chance(0.5) else -777
    elif isinstance(v, cs.DM):
        v[:, :] = 777
    elif isinstance(v, dict):
        for x in list(v.values()):
            if isinstance(x, (np.ndarray, cs.DM, list, dict)):
                spoil(ctx, x)
        v.clear()
    else:
        for x in v:
            if isinstance(x, (np.ndarray, cs.DM, list, dict)):
                spoil(ctx, x)
        if ctx.chance(0.5) and all(isinstance(x, (int, float)) for x in v):
            v[:] = [x + 1 for x in v]
        elif ctx.chance(0.5) and len(set(map(repr, v))) > 1:
            v.reverse()
        else:
            v.clear()


def owner(ctx):
    """(kind, containers, observations) of one object made from containers."""
    r = ctx.np
    kind = ctx.pick(['basis', 'interpolators', 'points', 'tableau', 'piecewise', 'piecewise', 'pdq', 'pdq', 'trajectory', 'scheme', 'integrator', 'struct', 'struct', 'expressions', 'parallel', 'vertcat'])
    either = lambda a: [float(x) for x in a] if ctx.chance(0.4) else np.array(a)
    nodes = np.sort(r.permutation(20)[:ctx.int(1, 5)]) / 19.
    grid = np.cumsum(np.append(ctx.pick([0., -1., 2.]), r.uniform(0.2, 1.5, size=ctx.int(1, 4))))
    q = np.append(r.uniform(grid[0], grid[-1], size=3), grid)
    g = either(grid)
    if kind == 'basis':
        t = either(nodes)
        b = cl.PolynomialBasis(t)
        c = r.normal(size=(2, nodes.size))
        return kind, [t], lambda: [b.D, b.tau, [x.coef for x in b.poly], b.order, b.interpolationMatrix(q), [x.coef for x in b.compose(c)]]
    if kind == 'interpolators':
        t, t1, u = np.array(nodes), either(nodes), r.normal(size=(2, nodes.size))
        f, h = cl.polynomialInterpolator(t), cl.barycentricInterpolator(t1)
        return kind, [t, t1], lambda: [f(u, q), h(u, q)]
    if kind == 'points':
        t = np.array(nodes)
        b = cl.butcherTableuForCollocationPoints(t)
        return 'tableau for points', [t], lambda: [b.A, b.b, b.c]
    if kind == 'tableau':
        A, bb, c = r.normal(size=(3, 3)), r.normal(size=3), r.normal(size=3)
        b = cl.ButcherTableau(A, bb, c)
        return kind, [A, bb, c], lambda: [b.A, b.b, b.c]
    if kind == 'piecewise':
        c = [r.normal(size=(2, nodes.size)) for _ in range(grid.size - 1)]
        t = either(nodes)
        f = cl.PiecewisePoly(g, c, cl.PolynomialBasis(t))
        if ctx.chance(0.3):
            f = f.derivative()
            kind = 'derivative'
        return kind, [g, c, t], lambda: [f(q), f(q, 'left'), list(f.discretize(0.2)), f.poly(grid.size - 2), f.derivative()(q), list(map(float, f.intervals)), f.numIntervals]
    if kind in ('pdq', 'trajectory'):
        order = ctx.int(2, 4)
        p = ce.Pdq(g, order)
        n = order * (grid.size - 1) + 1
        if kind == 'trajectory':
            a = [r.normal(size=(2, n)), r.normal(size=(1, n - 1)), r.normal(size=(2, n - 1))]
            tr = ce.SystemTrajectory(*(a + [p]))
            return kind, [g] + a, lambda: [tr.state(q), tr.algState(q), tr.input(q), list(map(float, tr.time))]
        y = r.normal(size=(2, n))
        f = [p.interpolator(k) for k in ('both', 'left', 'right')] if ctx.chance(0.5) else None
        F = lambda i: f[i] if f else p.interpolator(('both', 'left', 'right')[i])
        return kind, [g], lambda: [F(0)(y, q), F(1)(y[:, 1:], q), F(2)(y[:, 1:], q), cs.evalf(p.derivative(cs.DM(y))), cs.evalf(p.integral(cs.DM(y[:, 1:]))), p.expandInput(cs.DM(y[:, :grid.size - 1])),
                                   p.collocationPoints, list(map(float, p.intervalBounds)), p.numIntervals, p.t0, p.tf, p.intervalLength()]
    if kind == 'scheme':
        m = gen_model(ctx, tdp=0)
        s = ce.CollocationScheme(m.dae(), t=g, order=2)
        x, K = cs.DM(r.normal(size=(m.n['x'], grid.size))), cs.DM(r.normal(size=(m.n['x'], 2 * grid.size - 2)))
        res = lambda: evalf(cs.Function('s', [s.x, s.K, s.Z, s.u, s.p], [s.eq.cat, s.X, s.q, s.Q]), ctx)()
        return kind, [g], lambda: res() + [s.tc, list(map(float, s.t)), s.piecewisePolyX(x, K)(q), s.numTotalCollocationPoints]
    if kind == 'integrator':
        m = gen_model(ctx, solvable=True, tdp=0)
        grid = easy_steps(ctx, [m], grid, 1.2)
        g = either(grid)
        f = ce.collocationIntegrator('f', m.dae(), t=g, order=2, method='radau')
        a = dict(x0=r.normal(size=m.n['x']), z0=np.zeros(m.n['z']), u=r.normal(size=(m.n['u'], grid.size - 1)), p=r.normal(size=m.n['p']))
        q = np.append(r.uniform(grid[0], grid[-1], size=3), grid)

        def run():
            o = f.integrate(**a)
            return [o['x'], o['qf'], o['tc'], o['x_traj'](q)]
        return kind, [g], run
    if kind == 'struct':
        T = ctx.pick([ce.struct_symMX, ce.struct_symSX, ce.struct])
        rep, shape = ctx.pick([[2, 3], [2], [1, 2]]), [2, 2]
        es = [ce.entry('a', repeat=rep), ce.entry('b', shape=shape), ce.entry('c', shape=2)]
        order = ['c', 'a', 'b']
        if ctx.chance(0.5):
            ctx.r.shuffle(order)
        s = T(es, order=order) if ctx.chance(0.7) else T(es)
        v = cs.DM(np.arange(float(s.size)))

        def see():
            w = s(v)
            k = pickle.loads(pickle.dumps(s.struct))
            return view(s) + [w['a'], w['b'], w['c'], w[...], [str(i) for i in s.canonicalIndices()], s.f['a'], s.i['b']] + view(k) + view(T([ce.entry('n', struct=s, repeat=2)]))
        return kind, [rep, shape, order, es], see
    if kind == 'expressions':
        y = cs.MX.sym('y', 2)
        l = [[y + 1, y * 2], [y, y - 1]] if ctx.chance(0.5) else [y + 1, y * 2, y]
        es = [ce.entry('a', expr=l), ce.entry('b', expr=cs.sin(y))]
        s = ce.struct_MX(es)
        pack = lambda v: v if not isinstance(v, list) else cs.vertcat(*[pack(x) for x in v])
        return kind, [l, es], lambda: view(s) + evalf(cs.Function('f', [y], [s.cat, pack(s['a']), s['b']]), ctx)()
    if kind == 'parallel':
        ms = [gen_model(ctx, kind='semi', time=False).dae() for _ in range(ctx.int(1, 3))]
        p = dae_model.parallel(ms)
        return kind, [ms], lambda: [p.nx, p.nz, p.nu] + evalf(p.createFunction('f', ['x', 'z', 'u', 'p', 'tdp'], ['ode', 'alg', 'quad']), ctx)()
    v = cs.MX.sym('v', 2)
    ctx.case_nominal = ctx.pick([0., 1.])
    l = [Part(ctx, v, (ctx.int(1, 2), 1)).ineq for _ in range(ctx.int(1, 3))]
    if ctx.chance(0.5):
        l = {'k%d' % i: p for i, p in enumerate(l)}
    i = inequality.vertcat(l)
    num = lambda x: None if x is None else cs.DM(x.cat if hasattr(x, 'cat') else x)
    return kind, [l], lambda: [num(i.lb), num(i.ub), num(i.nominal), i.numel()] + evalf(cs.Function('f', [v], [i.expr.cat if hasattr(i.expr, 'cat') else i.expr]), ctx)()


def own(ctx):
    """The object keeps its own data: the caller may use the containers for something else."""
    state = ctx.r.getstate(), ctx.np.bit_generator.state
    kind, containers, see = owner(ctx)
    ctx.log('%s made from %s', kind, [type(c).__name__ for c in containers])
    seen = ctx.chance(0.5)
    want = digest(see()) if seen else None
    if not seen:
        # looked at for the first time after the modification: the same object made from untouched containers tells
        r, n = ctx.r, ctx.np
        ctx.r, ctx.np = random.Random(), np.random.default_rng()
        ctx.r.setstate(state[0])
        ctx.np.bit_generator.state = state[1]
        want = digest(owner(ctx)[2]())
        ctx.r, ctx.np = r, n
    for c in containers:
        spoil(ctx, c)
    got = see()
    ctx.check(close(digest(got), want), '%s changed when the caller modified what it was made from' % kind, got=got, want=want)
    ctx.event('own', kind, seen)


WORKLOADS = {'history': (history, 500, 15000), 'alone': (alone, 150, 4000), 'own': (own, 400, 12000)}
REQUIRED = {'repeated': 3000, 'arguments': 3000, 'overwritten': 2000, 'alone': 1500, 'own': 390}
