"""Structs and matrix views act as the casadi matrices they stand for."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import build, evaluate, flat_ok, flat_result, fresh_values, gen_spec
from ..refstruct import Ent, Spec
from .c07 import gen_view

RULE = 'one distinct observation per (kind of object, operation, form of its arguments, shape)'
KNOWN = 'prefix-stands-for-whole-struct'

UNARY = {
    'sin': cs.sin, 'cos': cs.cos, 'tanh': cs.tanh, 'fabs': cs.fabs, 'sign': cs.sign, 'floor': cs.floor, 'sqrt': lambda x: cs.sqrt(cs.fabs(x)),
    'sumsqr': cs.sumsqr, 'norm_1': cs.norm_1, 'norm_fro': cs.norm_fro, 'norm_inf': cs.norm_inf, 'transpose': cs.transpose, 'vec': cs.vec,
    'sum1': cs.sum1, 'sum2': cs.sum2, 'mmax': cs.mmax, 'mmin': cs.mmin, 'densify': cs.densify, 'cumsum': cs.cumsum, 'diff': lambda x: cs.diff(x, 1, 0),
    'horzsplit': lambda x: cs.vertcat(*cs.horzsplit(x)), 'vertsplit': lambda x: cs.horzcat(*cs.vertsplit(x)), 'repmat': lambda x: cs.repmat(x, 2, 3),
    'reshape': lambda x: cs.reshape(x, x.shape[0] * x.shape[1], 1), 'sum': lambda x: cs.sum1(cs.sum2(x)),
}
BINARY = {
    'o+c': lambda o, c: o + c, 'c+o': lambda o, c: c + o, 'o-c': lambda o, c: o - c, 'c-o': lambda o, c: c - o, 'o*c': lambda o, c: o * c, 'c*o': lambda o, c: c * o,
    'o/c': lambda o, c: o / c, 'c/o': lambda o, c: c / o, 'fmax': cs.fmax, 'fmin': lambda o, c: cs.fmin(c, o), 'dot': cs.dot, 'dot2': lambda o, c: cs.dot(c, o),
    'plus': cs.plus, 'minus': lambda o, c: cs.minus(c, o), 'times': cs.times, 'atan2': cs.atan2, 'lt': cs.lt, 'o<c': lambda o, c: c > o,
    'vertcat': lambda o, c: cs.vertcat(o, c), 'vertcat2': lambda o, c: cs.vertcat(c, o, c), 'horzcat': lambda o, c: cs.horzcat(c, o), 'veccat': lambda o, c: cs.veccat(o, c),
    'diagcat': lambda o, c: cs.diagcat(c, o), 'mtimes': lambda o, c: cs.mtimes(cs.transpose(c), o), 'mtimes2': lambda o, c: cs.mtimes(cs.transpose(o), c),
    'bilin': lambda o, c: cs.mtimes([cs.transpose(o), c, cs.transpose(c), o]), 'kron': lambda o, c: cs.kron(o, c),
    'if_else': lambda o, c: cs.if_else(c > 0, o, c), 'horzcat-list': lambda o, c: cs.horzcat(*[o, c, o]),
}
# the same object several times in one call, and two objects
TWICE = {
    'dot': cs.dot, 'plus': cs.plus, 'minus': cs.minus, 'times': cs.times, 'fmax': cs.fmax, 'vertcat': cs.vertcat, 'horzcat': cs.horzcat, 'veccat': cs.veccat,
    'mtimes': lambda a, b: cs.mtimes(cs.transpose(a), b), 'vertcat4': lambda a, b: cs.vertcat(a, b, b, a), 'atan2': cs.atan2,
}


class World(object):
    """A matrix type, one free symbol, and the numbers it stands for."""
    def __init__(self, ctx, t, n):
        self.t, self.at = t, fresh_values(ctx, n) / 16
        self.w = None if t is cs.DM else t.sym('w', n)

    def numbers(self, x):
        return x if self.w is None else evaluate(x, self.w, self.at)


def same(got, want):
    got, want = flat_result(got), flat_result(want)
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        g, w = cs.DM(g), cs.DM(w)
        if g.shape != w.shape or not np.allclose(g.full(), w.full(), rtol=1e-12, atol=1e-12, equal_nan=True):
            return False
    return True


def judge(ctx, what, op, args, nums, wd, sig):
    """op on the API objects against op on the numbers they stand for."""
    t, numbers = wd.t, wd.numbers
    try:
        want = op(*nums)
        numbers(op(*[t(n) for n in nums]))
    except Exception:
        return              # not defined for this shape or type
    got = op(*args)
    num = numbers(got)
    ctx.check(same(num, want), what, got=num, want=want, history=ctx.trace)
    ctx.event('operation', *sig)


def function_uses(ctx, what, o, num, numbers, t, sig):
    """o as argument of casadi functions, as output of functions."""
    ft = cs.MX if t is cs.MX else ctx.pick([cs.SX, cs.MX])
    a, b = ft.sym('a', *num.shape), ft.sym('b')
    f = cs.Function('f', [a, b], [cs.sin(a) * b, cs.sum1(a)], ['alpha', 'beta'], ['y', 'z'])
    want = [np.sin(num.full()) * 3., num.full().sum(axis=0, keepdims=True)]
    k = ctx.pick(['positional', 'keyword', 'call-list', 'call-dict'])
    if k == 'positional':
        got = list(f(o, 3.))
    elif k == 'keyword':
        r = f(beta=3., alpha=o)
        got = [r['y'], r['z']]
    elif k == 'call-list':
        got = f.call([o, 3.])
    else:
        r = f.call(dict(alpha=o, beta=3.))
        got = [r['y'], r['z']]
    for g, w in zip(got, want):
        g = cs.DM(numbers(g))
        ctx.check(g.shape == w.shape and np.allclose(g.full(), w, rtol=1e-12, atol=1e-12), '%s as argument of a function (%s)' % (what, k), got=g, want=w, history=ctx.trace)
    ctx.event('function', k, *sig)


def attributes(ctx, what, o, num, sig):
    ctx.check(tuple(o.shape) == num.shape, what + ': shape', got=o.shape, want=num.shape)
    ctx.check(o.sparsity() == num.sparsity(), what + ': sparsity', got=o.sparsity(), want=num.sparsity())
    if hasattr(o, 'is_valid_input') and sig[0] in ('symSX', 'symMX'):
        ctx.check(o.is_valid_input(), what + ' consists of symbols')
    for nm, want in (('numel', num.numel()), ('nnz', num.nnz()), ('size1', num.size1()), ('size2', num.size2()), ('is_column', num.is_column()), ('is_dense', num.is_dense())):
        if hasattr(o, nm):
            got = getattr(o, nm)()
            ctx.check(got == want, '%s: %s()' % (what, nm), got=got, want=want)
    ctx.event('attributes', *sig)


def exercise(ctx, what, o, num, wd, sig, other=None):
    """A handful of operations on o, which stands for a matrix of value num."""
    numbers, t = wd.numbers, wd.t
    attributes(ctx, what, o, num, sig)
    conv = t(o)
    ctx.check(type(conv) is t and same(numbers(conv), num), what + ' converted to ' + t.__name__, got=numbers(conv), want=num, history=ctx.trace)
    if t is cs.DM:
        for c in (cs.SX, cs.MX):
            ctx.check(same(cs.DM(cs.evalf(c(o))), num), what + ' converted to ' + c.__name__, got=c(o), want=num)
    ctx.event('converted', *sig)
    # a conversion is a copy: overwriting it leaves the struct alone
    if num.nnz():
        conv[0] = 1e6
        ctx.check(same(numbers(t(o)), num), what + ' after overwriting a conversion', got=numbers(t(o)), want=num)
    for nm in ctx.r.sample(sorted(UNARY), 5):
        judge(ctx, '%s of %s' % (nm, what), UNARY[nm], [o], [num], wd, (nm,) + sig)
    for nm in ctx.r.sample(sorted(BINARY), 5):
        cn = cs.DM(ctx.np.normal(size=num.shape))
        k = ctx.pick(['DM', 'same', 'np', 'scalar'])
        if k == 'np' and nm[:1] == 'c' or k == 'np' and nm in ('o<c', 'minus'):
            k = 'DM'        # numpy would take over
        if k == 'scalar':
            cn = cs.DM(round(ctx.r.gauss(0, 2), 3) + 0.01)
        c = {'DM': cn, 'same': t(cn), 'np': cn.full(), 'scalar': t(cn)}[k]
        if k == 'np' and nm[:2] in ('o+', 'o-', 'o*', 'o/'):
            c = cn
        judge(ctx, '%s of %s and %s' % (nm, what, k), BINARY[nm], [o, c], [num, cn], wd, (nm, k) + sig)
    for nm in ctx.r.sample(sorted(TWICE), 3):
        judge(ctx, '%s of %s twice' % (nm, what), TWICE[nm], [o, o], [num, num], wd, (nm, 'twice') + sig)
        if other is not None:
            judge(ctx, '%s of %s and another' % (nm, what), TWICE[nm], [o, other[0]], [num, other[1]], wd, (nm, 'two') + sig)
            judge(ctx, '%s of another and %s' % (nm, what), TWICE[nm], [other[0], o], [other[1], num], wd, (nm, 'two2') + sig)
    function_uses(ctx, what, o, num, numbers, t, sig)
    if t is not cs.DM:
        # as output of a function of the free symbol
        f = cs.Function('g', [wd.w], [o, cs.sum1(o)])
        got = f(wd.at)
        ctx.check(same(got[0], num) and same(got[1], cs.sum1(num)), what + ' as output of a function', got=got, want=num)
        j = cs.jacobian(o, wd.w)
        ctx.check(j.shape == (num.numel(), wd.w.numel()), 'shape of the derivative of ' + what, got=j.shape)
        ctx.event('output', *sig)


def make(ctx, spec, kind, wd):
    """A struct of the given kind with declaration spec, standing for wd.at."""
    if kind == 'DM':
        return build(ctx, spec)(ctx.pick([cs.DM(wd.at), wd.at, list(wd.at)]))
    if kind in ('SX', 'MX'):
        return build(ctx, spec, ctx.pick(['struct', 'sym' + kind]))(cs.vertcat(*[2 * x / 2 for x in cs.vertsplit(wd.w)]) if ctx.chance(0.5) else wd.t(wd.w))
    if kind in ('symSX', 'symMX'):
        o = build(ctx, spec, kind)
        wd.w = o.cat
        return o
    args, k = [], 0
    for e in spec.ents:
        args.append(ce.entry(e.name, expr=[wd.w[k + i:k + i + e.nr * e.nc] for i in range(0, e.dims[0] * e.nr * e.nc, e.nr * e.nc)] if e.dims else
                             cs.reshape(wd.w[k:k + e.nr * e.nc], e.nr, e.nc)))
        k += e.nr * e.nc * (e.dims[0] if e.dims else 1)
    return (ce.struct_MX if kind == 'struct_MX' else ce.struct_SX)(args)


KINDS = ['DM', 'SX', 'MX', 'symSX', 'symMX', 'struct_MX', 'struct_SX']


def composable(ctx):
    ents, used = [], ['x', 'y', 'z', 'u']
    for nm in used[:ctx.int(1, 4)]:
        dims = ctx.pick([[], [], [ctx.int(1, 3)]])
        ents.append(Ent(nm, dims, ctx.int(1, 3), 1 if dims else ctx.int(1, 3)))
    return Spec(ents)


def structs(ctx):
    kind = ctx.pick(KINDS)
    t = cs.DM if kind == 'DM' else cs.SX if 'SX' in kind else cs.MX
    composed = kind.startswith('struct')
    spec = composable(ctx) if composed else gen_spec(ctx, 2, dict(empty=False), limit=30)
    wd = World(ctx, t, spec.size)
    o = make(ctx, spec, kind, wd)
    ctx.log('%s %s', kind, spec.describe())
    num = cs.DM(wd.at)
    other = None
    if not kind.startswith('sym') and ctx.chance(0.6):
        o2 = make(ctx, spec, kind, wd)
        k, e2 = ctx.pick(spec.leaves)
        n2 = np.array(wd.at)
        if spec.map[k] and not e2.symm:
            v = cs.DM(o2.struct.map[k].sparsity(), ctx.np.normal(size=len(spec.map[k]))) if composed or kind == 'DM' else None
            if v is not None:
                o2[k] = t(v)
                n2[spec.map[k]] = v.nonzeros()
        other = (o2, cs.DM(n2))
    sig = (kind, spec.describe())
    exercise(ctx, 'the struct', o, num, wd, sig, other)
    if kind in ('DM', 'SX', 'MX', 'struct_MX', 'struct_SX'):
        for _ in range(ctx.int(1, 2)):
            canon, e = ctx.pick(spec.leaves)
            if not spec.map[canon] or e.symm:
                continue
            v = cs.DM(e.sparsity(), ctx.np.normal(size=len(spec.map[canon])))
            o[canon] = t(v)
            n = np.array(num.full()[:, 0])
            n[spec.map[canon]] = v.nonzeros()
            num = cs.DM(n)
            ctx.log('assign %s', canon)
            exercise(ctx, 'the struct after an assignment', o, num, wd, sig, other)
            ctx.event('assigned', *sig)


def symbols(ctx):
    """Symbolic structs where casadi requires symbols."""
    kind = ctx.pick(['symSX', 'symMX'])
    t = cs.SX if kind == 'symSX' else cs.MX
    spec = gen_spec(ctx, 2, dict(empty=False), limit=20)
    o = build(ctx, spec, kind)
    n = spec.size
    ctx.log('%s %s', kind, spec.describe())
    A = ctx.np.normal(size=(3, n))
    at = ctx.np.normal(size=n)
    sig = (kind, spec.describe())

    def g(x):
        return cs.mtimes(cs.DM(A), x * x)
    p = t.sym('p')
    form = ctx.pick(['list', 'list2', 'names', 'dict', 'cat'])
    e = ctx.pick([lambda: g(o.cat), lambda: g(cs.vertcat(o, o)[:n])])()
    if form == 'list':
        f = cs.Function('f', [o], [e])
    elif form == 'list2':
        f0 = cs.Function('f', [p, o], [e * p])
        f = lambda x: f0(1, x)
    elif form == 'names':
        f = cs.Function('f', [o], [e], ['x'], ['y'])
    elif form == 'dict':
        f1 = cs.Function('f', dict(x=o, y=e), ['x'], ['y'])
        f = lambda x: f1(x)
    else:
        f = cs.Function('f', [o.cat], [e])
    want = A @ (at * at)
    for arg in (at, build(ctx, spec)(at)):
        got = cs.DM(f(arg))
        ctx.check(got.shape == (3, 1) and np.allclose(got.full()[:, 0], want, rtol=1e-10, atol=1e-10), 'function with a struct as input (%s)' % form, got=got, want=want, decl=spec.describe())
    ctx.event('input', form, *sig)
    # derivatives with respect to the struct
    J = cs.Function('J', [o], [cs.jacobian(e, o)])(at)
    ctx.check(J.shape == (3, n) and np.allclose(cs.DM(J).full(), A * (2 * at), rtol=1e-10, atol=1e-10), 'jacobian with respect to a struct', got=J, want=A * (2 * at))
    v = ctx.np.normal(size=n)
    got = cs.Function('J', [o], [cs.jtimes(e, o, cs.DM(v))])(at)
    ctx.check(np.allclose(cs.DM(got).full()[:, 0], (A * (2 * at)) @ v, rtol=1e-9, atol=1e-9), 'jtimes with respect to a struct', got=got)
    H, gr = cs.hessian(cs.sumsqr(o.cat), o)
    ctx.check(np.allclose(cs.DM(cs.evalf(H)).full(), 2 * np.eye(n)), 'hessian with respect to a struct', got=H)
    ctx.event('derivative', *sig)
    ctx.check(bool(cs.depends_on(e, o)) and not cs.depends_on(p * 2, o), 'dependence on a struct')
    s = cs.substitute(e, o, cs.DM(at) * p)
    got = cs.DM(cs.Function('s', [p], [s])(2.))
    ctx.check(np.allclose(got.full()[:, 0], 4 * want, rtol=1e-10, atol=1e-10), 'struct substituted', got=got, want=4 * want)
    s = cs.substitute(p * p, p, cs.sumsqr(o))
    got = cs.DM(cs.Function('s', [o], [s])(at))
    ctx.check(np.allclose(float(got), np.sum(at * at) ** 2, rtol=1e-10), 'expression of a struct substituted', got=got)
    ctx.event('substituted', *sig)
    if ctx.chance(0.25):
        # a solver formulated with a struct
        target = ctx.np.normal(size=n)
        k = ctx.pick(['nlpsol', 'rootfinder', 'integrator'])
        if k == 'rootfinder':
            r = cs.rootfinder('r', 'newton', dict(x=o, g=o.cat * 3 - cs.DM(target)))
            got, want = r(np.zeros(n), cs.DM(0, 1)), target / 3
        elif k == 'integrator':
            r = cs.integrator('r', 'rk', dict(x=o, ode=cs.DM(target) + 0 * o.cat), 0, 2, {'number_of_finite_elements': 3})
            got, want = r(x0=build(ctx, spec)(at))['xf'], at + 2 * target
        else:
            r = cs.qpsol('r', 'qrqp', dict(x=o, f=cs.sumsqr(o.cat - cs.DM(target))), dict(print_iter=False, print_header=False, print_info=False))
            got, want = r(x0=0)['x'], target
        got = cs.DM(got).full()[:, 0]
        ctx.check(np.allclose(got, want, rtol=1e-7, atol=1e-7), 'solver formulated with a struct (%s)' % k, got=got, want=want)
        ctx.event('solver', k, *sig)


def views(ctx):
    t = ctx.pick([cs.DM, cs.SX, cs.MX])
    kind, a, b, top, shape = gen_view(ctx)
    sa = build(ctx, a, ctx.pick(['struct', 'symSX', 'symMX']))
    sb = build(ctx, b, ctx.pick(['struct', 'symSX', 'symMX'])) if b is not None else None
    wd = World(ctx, t, top.size)
    num = cs.reshape(cs.DM(wd.at), *shape)
    m = cs.DM(num) if t is cs.DM else cs.reshape(wd.t(wd.w), *shape)
    v = sa.product(sb, m) if kind == 'product' else getattr(sa, kind)(m)
    ctx.log('%s view of %s, %s', kind, a.describe(), t.__name__)
    sig = ('view', kind, t.__name__, a.describe())
    exercise(ctx, 'the view', v, num, wd, sig)
    # after writing a block by name
    if kind in ('squared', 'product'):
        r, c = ctx.pick(a.keys), ctx.pick((b or a).keys)
        ri, ci = a.flat((r,)), (b or a).flat((c,))
        idx = (r, c)
    elif kind == 'repeated':
        k, (r, e) = ctx.int(0, shape[1] - 1), ctx.pick(a.leaves)
        ri, ci = a.map[r], [k]
        idx = (k,) + r
        if e.symm or not ri:
            return
    else:
        k, r, c = ctx.int(0, shape[1] // shape[0] - 1), ctx.pick(a.keys), ctx.pick(a.keys)
        ri, ci = a.flat((r,)), [k * shape[0] + j for j in a.flat((c,))]
        idx = (k, r, c)
    if kind != 'repeated' and not (flat_ok(a.d[r]) and flat_ok((a if kind != 'product' else b).d[c])):
        return
    x = ctx.np.normal(size=(len(ri), len(ci)))
    if kind == 'repeated':
        sp = sa.struct.map[r].sparsity()
        v[idx] = t(cs.DM(sp, x[:, 0]))
    else:
        v[idx] = t(cs.DM(x))
    n = num.full()
    n[np.ix_(ri, ci)] = x
    ctx.log('write %s', idx)
    exercise(ctx, 'the view after a write', v, cs.DM(n), wd, sig)
    ctx.event('view', *sig)


def prefixes(ctx):
    """A prefix that selects a matrix stands for that matrix (known finding: it stands for the whole struct)."""
    kind = ctx.pick(KINDS)
    t = cs.DM if kind == 'DM' else cs.SX if 'SX' in kind else cs.MX
    spec = composable(ctx) if kind.startswith('struct') else gen_spec(ctx, 2, dict(empty=False, symm=False), limit=30)
    wd = World(ctx, t, spec.size)
    o = make(ctx, spec, kind, wd)
    canon, e = ctx.pick(spec.leaves)
    p = o.prefix[canon if len(canon) > 1 else canon[0]]
    ctx.log('prefix %s of %s %s', canon, kind, spec.describe())
    want, whole = spec.read(canon, wd.at), cs.DM(wd.at)
    got = wd.numbers(p())
    ctx.check(same(got, want), 'the selection of a prefix', got=got, want=want)
    for nm in ctx.r.sample(['sin', 'sumsqr', 'fabs', 'vec', 'transpose', 'norm_fro'], 3):
        op = UNARY[nm]
        try:
            r = wd.numbers(op(p))
        except Exception as ex:
            r = ex
        if not isinstance(r, Exception) and same(r, op(want)):
            ctx.event('prefix', kind, nm)
        elif not isinstance(r, Exception) and same(r, op(whole)):
            ctx.known(KNOWN, 'a prefix used as a matrix stands for the whole struct')
            ctx.event('known', kind, nm)
        else:
            ctx.fail('%s of a prefix' % nm, got=r, want=op(want), decl=spec.describe(), prefix=canon)


def printing(ctx):
    """Printing a struct names its entries in order."""
    spec = gen_spec(ctx, 2, None, limit=120)
    kind = ctx.pick(['struct', 'symSX', 'symMX'])
    o = build(ctx, spec, kind)
    objs = [o, o.struct, o(0)]
    ctx.log('print %s %s', kind, spec.describe())
    for x in objs:
        s = str(x)
        ctx.check(isinstance(s, str) and str(spec.size) in s, 'total size printed', got=s)
        at = [s.find(repr(k)) for k in spec.keys]
        ctx.check(-1 not in at and at == sorted(at), 'names printed in order', got=s, want=spec.keys)
        repr(x)
        ctx.event('printed', kind, spec.describe())
    for p in (o(0).prefix[spec.keys[0]], o(0).prefix[spec.keys[-1]]):
        s = str(p)
        ctx.check(isinstance(s, str) and 'prefix' in s, 'prefix printed', got=s)
        repr(p)
    for e in o.entries:
        str(e), repr(e)


def empty(ctx):
    """Structs without elements stand for 0-by-1 matrices."""
    kind = ctx.pick(['none', 'repeat', 'shape', 'nested'])
    decl = {'none': lambda: [], 'repeat': lambda: [ce.entry('a', repeat=ctx.pick([0, [0], [0, 2], [2, 0]]))],
            'shape': lambda: [ce.entry('a', shape=0), ce.entry('b', shape=(0, 2)), ce.entry('c', shape=(3, 0), repeat=2)],
            'nested': lambda: [ce.entry('a', struct=ce.struct([ce.entry('z', repeat=0)]), repeat=2)]}[kind]
    make = ctx.pick(['struct', 'struct_symSX', 'struct_symMX'])
    ctx.log('%s %s', make, kind)
    s = getattr(ce, make)(decl())
    ctx.check(s.size == 0 and tuple(s.shape) == (0, 1) and s.labels() == [] and s.canonicalIndices() == [], 'size of a struct without elements', got=(s.size, s.shape))
    if make != 'struct':
        t = cs.SX if make == 'struct_symSX' else cs.MX
        conv = t(s)
        ctx.check(conv.shape == (0, 1) and conv.is_valid_input(), 'conversion of a symbolic struct without elements', got=conv.shape)
        for nm, want in (('is_valid_input', True), ('is_column', True), ('is_dense', True), ('numel', 0)):
            if hasattr(s, nm):
                ctx.check(getattr(s, nm)() == want, nm + '() of a symbolic struct without elements', got=getattr(s, nm)())
        w = t.sym('w', 2)
        f = cs.Function('f', [s, w], [cs.vertcat(s, w * 2)])
        got = cs.DM(f(ctx.pick([lambda: s(0), lambda: cs.DM(0, 1), lambda: s([])])(), [1., 2.]))
        ctx.check(same(got, cs.DM([2., 4.])), 'function of a struct without elements', got=got)
        if make == 'struct_symMX':
            m = ce.SemiExplicitDae(x=cs.MX.sym('x'), ode=cs.MX(1), u=s, p=ce.struct_symMX(decl()))
            ctx.check((m.nu, m.np) == (0, 0), 'model with structs without elements', got=(m.nu, m.np))
    for data in (0, [], cs.DM(0, 1), np.zeros(0), np.zeros((0, 1)), cs.MX(0, 1), cs.SX(0, 1)):
        v = s(data)
        ctx.check(v.cat.shape == (0, 1) and v.size == 0 and v.keys() == s.keys(), 'struct without elements from %r' % (data,), got=v.cat.shape)
    ctx.event('empty', make, kind)


WORKLOADS = {'empty': (empty, 60, 600), 'structs': (structs, 220, 5000), 'symbols': (symbols, 120, 2500), 'views': (views, 150, 3500), 'prefixes': (prefixes, 150, 2500), 'printing': (printing, 100, 1500)}
REQUIRED = {'operation': 3000, 'function': 300, 'output': 200, 'converted': 300, 'attributes': 300, 'assigned': 80, 'input': 80, 'derivative': 80, 'substituted': 80,
            'solver': 10, 'view': 80, 'printed': 150, 'empty': 60}
