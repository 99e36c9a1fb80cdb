"""Generation of DAE models with an independent evaluation, and the collocation oracle."""
import casadi as cs
import numpy as np

import casadi_extras as ce

from .exact import F, Lagrange, fl, fr, integ, val

PARTS = ['xdot', 'x', 'z', 'u', 'p', 't', 'tdp']
_TAB = {}


def tableau(order, method):
    """Exact collocation tableau (A, b, c), rounded once."""
    key = (order, method)
    if key not in _TAB:
        c = cs.collocation_points(order, method)
        lag = Lagrange(c)
        I = [integ(p) for p in lag.coef]
        A = np.array([[float(val(I[j], x)) for j in range(order)] for x in lag.x])
        _TAB[key] = (A, np.array([float(val(I[j], F(1))) for j in range(order)]), np.array(c))
    return _TAB[key]


class Model(object):
    """Symbols, expressions and a CasADi function of them that does not involve the repository."""
    def __init__(self, kind, n, sym, expr, given=None):
        self.kind, self.n, self.sym, self.expr, self.given = kind, n, sym, expr, given or {}
        self.single, self.made = False, None
        s = dict(sym)
        for k in PARTS:
            if k not in s:
                s[k] = cs.MX.sym(k, 1 if k == 't' else n.get('x', 0) if k == 'xdot' else 0)
        if kind == 'semi':
            res = cs.vertcat(s['xdot'] - expr['ode'], expr['alg']) if 'alg' in expr else s['xdot'] - expr['ode']
        else:
            res = expr['dae']
        quad = expr.get('quad', cs.MX.zeros(0, 1))
        self.fun = cs.Function('oracle', [s[k] for k in PARTS], [res, quad])

    def dae(self):
        """The model as an object of the repository: one for all uses, or a new one for each."""
        if self.single:
            if self.made is None:
                self.made = self.make()
            return self.made
        return self.make()

    def make(self):
        kw = {k: v for k, v in self.sym.items() if not (k == 'xdot' and self.kind == 'semi')}
        kw.update(self.expr)
        kw.update(self.given)
        return (ce.SemiExplicitDae if self.kind == 'semi' else ce.ImplicitDae)(**kw)

    def __call__(self, xdot, x, z, u, p, t, tdp):
        r, q = self.fun(xdot, x, z, u, p, t, tdp)
        return r.full()[:, 0], q.full()[:, 0]

    def slope(self, ctx, n=8):
        """How fast the state derivative changes with the state (largest of n places)."""
        nx, nz = self.n['x'], self.n['z']
        args = self.fun.mx_in()
        F = self.fun.call(args)[0]
        jac = cs.Function('slopes', args, [cs.jacobian(F, cs.vertcat(args[0], args[2])), cs.jacobian(F, args[1])])
        res = 0.
        for _ in range(n):
            a, b = [m.full() for m in jac.call([cs.DM(ctx.np.normal(size=s.shape)) for s in args])]
            res = max(res, np.abs(np.linalg.solve(a, b)[:nx]).sum(axis=1).max())
        return res

    def describe(self):
        return '%s %s, equations %s%s' % (self.kind, ' '.join('n%s=%d' % i for i in sorted(self.n.items())), self.text, ', structs for %s' % sorted(self.given) if self.given else '')


def symbol_struct(ctx, name, n):
    """A struct of n symbols, as accepted for a part of a model."""
    k = ctx.int(1, n)
    if ctx.chance(0.6):
        return ce.struct_symMX([ce.entry(name + '_a', shape=k)] + ([ce.entry(name + '_b', repeat=n - k)] if n > k else []))
    return ce.struct_MX([ce.entry(name + '_a', expr=cs.MX.sym(name + '_a', k))] + ([ce.entry(name + '_b', expr=[cs.MX.sym(name + '_b') for _ in range(n - k)])] if n > k else []))


def expression_struct(ctx, e):
    """The elements of a column of expressions in a struct."""
    k = ctx.int(1, e.numel())
    return ce.struct_MX([ce.entry('first', expr=e[:k])] + ([ce.entry('rest', expr=e[k:])] if k < e.numel() else []))


def holes(ctx, e):
    """e with some elements replaced by structural zeros, and which elements are kept."""
    keep = ctx.np.random(e.numel()) < 0.5
    r = type(e)(*e.shape)
    keep = keep.reshape(e.shape, order='F')
    for i, j in zip(*np.nonzero(keep)):
        r[int(i), int(j)] = e[int(i), int(j)]
    return r, keep


def mix(ctx, rows, args, strength=1.0):
    """Random smooth nonlinear expression (rows x 1) in which every argument element matters.

    With strength < 1 the slopes are bounded, so that initial value problems are well-posed on short grids.
    """
    v = cs.vertcat(*args)
    n = v.numel()
    if rows == 0:
        return cs.MX.zeros(0, 1), ''
    W = np.round(ctx.np.uniform(0.3, 1.2, size=(rows, n)) * ctx.np.choice([-1, 1], size=(rows, n)), 3) * strength
    e = cs.mtimes(cs.DM(W), v)
    V = np.round(ctx.np.uniform(-1, 1, size=(rows, n)), 3)
    k = ctx.pick(['lin', 'sin', 'sin', 'prod', 'tanh'])
    if k == 'sin':
        e = e + 0.5 * strength * cs.sin(cs.mtimes(cs.DM(V), v))
    elif k == 'prod':
        w = v if strength >= 1 else cs.tanh(v)
        e = e + 0.25 * strength * cs.mtimes(cs.DM(V), w * cs.vertcat(w[1:], w[0]) if n > 1 else w * w)
    elif k == 'tanh':
        e = e * 0.5 + cs.tanh(cs.mtimes(cs.DM(V), v)) * strength
    return e, k


def gen_model(ctx, kind=None, quad=None, time=None, tdp=None, solvable=False, nx=None, nz=None, nu=None, np_=None, zeros=True):
    kind = kind or ctx.pick(['semi', 'semi', 'implicit'])
    n = dict(x=(ctx.int(1, 3) if ctx.chance(0.96) else ctx.int(5, 11)) if nx is None else nx, z=ctx.pick([0, 0, 1, 2]) if nz is None else nz, u=ctx.pick([0, 1, 1, 2]) if nu is None else nu,
             p=ctx.pick([0, 0, 1, 2]) if np_ is None else np_, tdp=ctx.pick([0, 0, 0, 1, 2]) if tdp is None else tdp, q=ctx.pick([0, 1, 2]) if quad is None else quad)
    if ctx.chance(0.05):     # many of one kind
        k = ctx.pick([k for k, given in (('z', nz if not solvable else 0), ('u', nu), ('p', np_), ('tdp', tdp), ('q', quad)) if given is None] or ['none'])
        if k in n:
            n[k] = ctx.int(3, 7)
    if nx is None and nz is None and not solvable and ctx.chance(0.04):     # algebraic equations only
        n.update(x=0, z=ctx.int(1, 2))
    has_t = ctx.chance(0.6) if time is None else time
    sym, given = {}, {}
    structured = ctx.chance(0.2)

    def symbol(k, size):
        if structured and size > 0 and ctx.chance(0.5):
            given[k] = symbol_struct(ctx, k, size)
            return given[k].cat
        return cs.MX.sym(k, size)
    sym['x'] = symbol('x', n['x'])
    for k in ('z', 'u', 'p', 'tdp'):
        if n[k] > 0 or ctx.chance(0.1):
            sym[k] = symbol(k, n[k])
    if has_t:
        sym['t'] = cs.MX.sym('t')
    rest = [cs.sin(sym[k]) if k == 't' and solvable else sym[k] for k in ('u', 'p', 't', 'tdp') if k in sym and sym[k].numel() > 0]
    xz = [sym[k] for k in ('x', 'z') if k in sym and sym[k].numel() > 0]
    expr, text = {}, []
    st = 0.3 * min(1., 3. / max(1, n['x'])) if solvable else 1.0
    if kind == 'semi':
        expr['ode'], w = mix(ctx, n['x'], xz + rest, st)
        text.append(w)
        if n['z'] > 0:
            a, w = mix(ctx, n['z'], [sym['x']] + rest, st)
            if solvable:
                expr['alg'] = a - sym['z'] + 0.1 * cs.sin(sym['z'])
            else:
                b, w = mix(ctx, n['z'], [sym['z']], st)
                expr['alg'] = a + b
            text.append(w)
        elif ctx.chance(0.1) and 'z' in sym:
            expr['alg'] = cs.MX.zeros(0, 1)
    else:
        sym['xdot'] = symbol('xdot', n['x'])
        if solvable:
            a, w = mix(ctx, n['x'], xz + rest, st)
            eq = [sym['xdot'] + 0.1 * cs.sin(sym['xdot']) - a]
            if n['z']:
                b, w2 = mix(ctx, n['z'], [sym['x']] + rest, st)
                eq.append(b - sym['z'])
            expr['dae'] = cs.vertcat(*eq)
        else:
            expr['dae'], w = mix(ctx, n['x'] + n['z'], [sym['xdot']] + xz + rest, st)
        text.append(w)
    if n['q']:
        expr['quad'], w = mix(ctx, n['q'], xz + rest, st)
        text.append('quad ' + w)
    for k in ('ode', 'quad'):
        if zeros and k in expr and ctx.chance(0.08):
            expr[k], _ = holes(ctx, expr[k])
            text.append('structural zeros in ' + k)
    if structured:
        given.update({k: expression_struct(ctx, e) for k, e in expr.items() if e.numel() > 0 and e.is_dense() and ctx.chance(0.4)})
    m = Model(kind, n, sym, expr, given)
    m.text = '/'.join(text)
    m.single = ctx.chance(0.5)
    m.has_t = has_t
    return m


def gen_tdp(ctx, n):
    """(function of time handed to the scheme, the same in NumPy)."""
    if n == 0:
        k = ctx.r.random()
        if k < 0.7:
            return None, lambda t: np.zeros(0)
        return (lambda t: cs.DM.zeros(0, 1)), lambda t: np.zeros(0)
    a, b = ctx.np.normal(size=n), ctx.np.normal(size=n)
    ref = lambda t: np.sin(a * float(t)) + b * float(t)
    k = ctx.pick(['DM', 'np', 'fun', 'MX'])
    if k == 'DM':
        return (lambda t: cs.DM(ref(t))), ref
    if k == 'np':
        return ref, ref
    if k == 'MX':
        return (lambda t: cs.sin(cs.MX(a) * t) + b * t), ref
    s = cs.MX.sym('s')
    return cs.Function('tdp', [s], [cs.sin(cs.DM(a) * s) + cs.DM(b) * s]), ref


def gen_time(ctx, nmax=4):
    n = min(ctx.pick([1, 1, 2, 3, 4]), nmax)
    if nmax >= 4 and ctx.chance(0.05):
        n = ctx.int(6, 24)
    k = ctx.pick(['uniform', 'random', 'random', 'shifted', 'int', 'almost'])
    if k == 'int':
        return np.cumsum([ctx.int(-2, 2)] + [ctx.int(1, 2) for _ in range(n)])
    h = ctx.np.uniform(0.1, 0.9, size=n)
    if k == 'uniform':
        h[:] = ctx.pick([0.1, 0.25, 0.5])
    if k == 'almost':       # equal lengths
        h[:] = h[0] * (1 + ctx.np.integers(0, 9, size=n) * 10.0 ** -ctx.int(4, 7))
    return ctx.pick([0., 0., -1.5, 3.25] if k != 'shifted' else [10., -7.3, 100.]) + np.append(0, np.cumsum(h))


def used(ctx, model, make, t, order, method, tdp_fun):
    """The model's object, sometimes after something similar has been made of it."""
    d = model.dae()
    if ctx.chance(0.3):
        other = np.array(t, float)
        k = ctx.pick(['longer', 'shifted', 'same', 'order', 'method', 'last'])
        if k == 'longer':
            other = other[0] + 1.5 * (other - other[0])
        elif k == 'shifted':
            other = other + 0.5
        elif k == 'order':
            order = order % 4 + 1
        elif k == 'method':
            method = dict(legendre='radau', radau='legendre')[method]
        elif k == 'last':
            other = np.append(other, other[-1] + 0.3)
        ctx.log('after another one of the same model (%s)', k)
        make(d, t=other, order=order, method=method, tdp_fun=tdp_fun)
    return d


def easy_steps(ctx, models, t, horizon=1.5):
    """The grid, shortened so that Newton's method converges in every step."""
    t = t[0] + (t - t[0]) * min(1.0, horizon / (t[-1] - t[0]))
    steep = max(m.slope(ctx) for m in models) * np.diff(t).max()
    return t if steep <= 0.6 else t[0] + (t - t[0]) * 0.6 / steep


class Oracle(object):
    """Collocation conditions computed point by point."""
    def __init__(self, model, t, order, method, tdp):
        self.m, self.t, self.M, self.tdp = model, np.asarray(t, float), order, tdp
        self.A, self.b, self.c = tableau(order, method)
        self.N = len(t) - 1
        self.h = np.diff(self.t)
        self.tc = np.hstack([self.t[n] + self.h[n] * self.c for n in range(self.N)])

    def states(self, x, K):
        """States at points (nx, NM) and ends of intervals (nx, N)."""
        X = np.zeros((x.shape[0], self.N * self.M))
        xf = np.zeros((x.shape[0], self.N))
        for n in range(self.N):
            Kn = K[:, n * self.M:(n + 1) * self.M]
            for i in range(self.M):
                X[:, n * self.M + i] = x[:, n] + self.h[n] * np.dot(Kn, self.A[i])
            xf[:, n] = x[:, n] + self.h[n] * np.dot(Kn, self.b)
        return X, xf

    def __call__(self, x, K, Z, u, p):
        """p has one column, or one column per point.  Everything the scheme should give."""
        N, M = self.N, self.M
        X, xf = self.states(x, K)
        nq = self.m.n['q']
        col = np.zeros((self.m.n['x'] + self.m.n['z'], N * M))
        quad = np.zeros((nq, N * M))
        for n in range(N):
            for i in range(M):
                k = n * M + i
                pk = p[:, k] if p.shape[1] > 1 else p[:, 0] if p.shape[1] else np.zeros(0)
                col[:, k], quad[:, k] = self.m(K[:, k], X[:, k], Z[:, k], u[:, n], pk, self.tc[k], self.tdp(self.tc[k]))
        q = np.zeros((nq, N + 1))
        Q = np.zeros((nq, N * M))
        for n in range(N):
            g = quad[:, n * M:(n + 1) * M]
            q[:, n + 1] = q[:, n] + self.h[n] * np.dot(g, self.b)
            for i in range(M):
                Q[:, n * M + i] = q[:, n] + self.h[n] * np.dot(g, self.A[i])
        return dict(collocation=col, continuity=xf - x[:, 1:], X=X, xf=xf, quad=quad, q=q, Q=Q, U=np.repeat(u, M, axis=1))


def gen_values(ctx, model, N, M, repeat=False, scale=1.0):
    n = model.n
    return dict(x=ctx.np.normal(size=(n['x'], N + 1)) * scale, K=ctx.np.normal(size=(n['x'], N * M)) * scale, Z=ctx.np.normal(size=(n['z'], N * M)) * scale,
                u=ctx.np.normal(size=(n['u'], N)) * scale, p=ctx.np.normal(size=(n['p'], N * M if repeat else 1)) * scale)


OUT = ['collocation', 'continuity', 'param', 'cat', 'X', 'quad', 'q', 'Q', 'U']


def scheme_outputs(s):
    """The scheme's expressions by name."""
    eq = s.eq
    return dict(collocation=eq['collocation'], continuity=eq['continuity'], param=eq['param'], cat=eq.cat, X=s.X, quad=s.quad, q=s.q, Q=s.Q, U=s.U)


def scheme_function(s, out=OUT):
    e = scheme_outputs(s)
    return cs.Function('scheme', [s.x, s.K, s.Z, s.u, s.p], [e[k] for k in out])


def evaluate(f, v, out=OUT):
    r = f.call([cs.DM(v[k]) for k in ('x', 'K', 'Z', 'u', 'p')])
    return {k: x.full() for k, x in zip(out, r)}


def order_tol(order):
    """The tableau itself loses about a factor of 5 in accuracy per order (2e-12 for order 9)."""
    return 1e-11 * 5. ** max(0, order - 5)


def close(a, b, tol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max())))
