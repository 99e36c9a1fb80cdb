"""DAE models accept exactly consistent definitions."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..gendae import expression_struct, holes, symbol_struct

RULE = 'one distinct observation per (kind of model, parts present, sizes) or (kind of model, way of being inconsistent)'
SYMBOLIC = ['x', 'z', 'u', 'p', 't', 'tdp', 'xdot']
SIZES = dict(x='nx', z='nz', u='nu', p='np', tdp='ntdp', quad='nq')


def symbol(ctx, name, n, m=1, typ=cs.MX):
    """A symbol, or (columns only) a stack of symbols."""
    if m == 1 and n > 1 and typ is cs.MX and ctx.chance(0.25):
        k = ctx.int(1, n - 1)
        return cs.vertcat(typ.sym(name + '_a', k), typ.sym(name + '_b', n - k))
    if m == 1 and n > 0 and typ is cs.MX and ctx.chance(0.1):
        return symbol_struct(ctx, name, n)
    return typ.sym(name, n, m)


def expression(ctx, n, m, args, typ=cs.MX):
    if n * m == 0:
        return typ(n, m)
    W = cs.DM(ctx.np.normal(size=(n * m, max(1, sum(a.numel() for a in args)))))
    v = cs.vertcat(*[cs.vec(a) for a in args]) if sum(a.numel() for a in args) else typ(1)
    e = cs.reshape(cs.sin(cs.mtimes(W, v)), n, m)
    if ctx.chance(0.08):
        return holes(ctx, e)[0]
    return expression_struct(ctx, e) if m == 1 and typ is cs.MX and ctx.chance(0.1) else e


def gen_parts(ctx, kind, typ=cs.MX, stateless=0.05):
    n = dict(x=ctx.pick([1, 1, 2, 3]) if not ctx.chance(stateless) else 0, z=ctx.pick([0, 1, 2]), u=ctx.pick([0, 1, 2, 3]), p=ctx.pick([0, 1, 2]), tdp=ctx.pick([0, 1, 2]), q=ctx.pick([0, 1, 2]))
    d = {'x': symbol(ctx, 'x', n['x'], typ=typ)}
    for k in ('z', 'u', 'p', 'tdp'):
        if n[k] or ctx.chance(0.2):
            m = ctx.pick([1, 1, 2]) if k in ('p', 'tdp') else 1
            d[k] = symbol(ctx, k, n[k], m, typ=typ)
    if ctx.chance(0.6):
        d['t'] = typ.sym('t')
    if kind == 'implicit':
        d['xdot'] = symbol(ctx, 'xdot', n['x'], typ=typ)
    args = [d[k] for k in d]
    if kind == 'semi':
        d['ode'] = expression(ctx, n['x'], 1, args, typ)
        if n['z'] or ctx.chance(0.2):
            d['alg'] = expression(ctx, n['z'], 1, args, typ)
    else:
        d['dae'] = expression(ctx, n['x'] + n['z'], 1, args, typ)
    if n['q']:
        d['quad'] = expression(ctx, n['q'], 1, args, typ)
    return d, n


def cls(kind):
    return ce.SemiExplicitDae if kind == 'semi' else ce.ImplicitDae


def same(ctx, a, b, syms):
    """Two expressions are the same function of the given symbols."""
    if a.shape != b.shape:
        return False
    if a.numel() == 0:
        return True
    f = cs.Function('f', syms, [a, b])
    for _ in range(2):
        r = f.call([cs.DM(ctx.np.normal(size=s.shape)) for s in syms])
        if not np.array_equal(r[0].full(), r[1].full()):
            return False
    return True


def accepted(ctx):
    kind = ctx.pick(['semi', 'implicit'])
    d, n = gen_parts(ctx, kind, ctx.pick([cs.MX, cs.MX, cs.MX, cs.SX]))
    ctx.log('%s with %s', kind, {k: v.shape for k, v in d.items()})
    m = cls(kind)(**dict(ctx.r.sample(list(d.items()), len(d))))
    syms = [d[k] for k in SYMBOLIC if k in d]
    for k, v in d.items():
        ctx.check(same(ctx, getattr(m, k), v, syms), 'expression %s reported by the model' % k, got=getattr(m, k), want=v)
    for k, size in SIZES.items():
        want = d[k].numel() if k in d else 0
        ctx.check(int(getattr(m, size)) == want, 'size %s' % size, got=getattr(m, size), want=want, parts={k: v.shape for k, v in d.items()})
        if k not in d:
            ctx.check(getattr(m, k).numel() == 0, 'absent part %s must be empty' % k, got=getattr(m, k))
    if kind == 'semi' and 'alg' not in d:
        ctx.check(m.alg.numel() == 0, 'absent alg must be empty', got=m.alg)
    ctx.event('accepted', kind, sorted((k, v.shape) for k, v in d.items()))


def defects(ctx, kind, d, n):
    """All single inconsistencies applicable to a consistent model: (description, changed parts)."""
    args = [d[k] for k in SYMBOLIC if k in d]
    out = []

    def put(what, **kw):
        e = dict(d)
        for k, v in kw.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        out.append((what, e))
    nx, nz = n['x'], n['z']
    eqs = {'semi': {'ode': nx, 'alg': nz}, 'implicit': {'dae': nx + nz}}[kind]
    put('x missing', x=None)
    for k in eqs:
        if k != 'alg':
            put(k + ' missing', **{k: None})
    if kind == 'implicit':
        put('xdot missing', xdot=None)
        put('xdot too long', xdot=cs.MX.sym('xdot', nx + 1))
        put('xdot and dae too long', xdot=cs.MX.sym('xdot', nx + 1), dae=expression(ctx, nx + nz + 1, 1, args))
        put('x and dae too long', x=cs.MX.sym('x', nx + 1), dae=expression(ctx, nx + nz + 1, 1, args))
        put('z too long', z=cs.MX.sym('z', nz + 1))
        put('xdot too short, z too long', xdot=cs.MX.sym('xdot', nx - 1), z=cs.MX.sym('z', nz + 1))
        if nx > 1:
            put('xdot too short', xdot=cs.MX.sym('xdot', nx - 1))
            put('xdot row', xdot=cs.MX.sym('xdot', 1, nx))
        else:
            put('xdot too short', xdot=cs.MX.sym('xdot', 0))
    for k in ('x', 'z', 'u'):
        m = max(n[k], 2)
        # sizes of the equations are kept consistent with the number of elements
        full = {'x': nx, 'z': nz, 'u': n['u']}
        full[k] = m
        kw = {}
        if kind == 'semi':
            kw = {'ode': expression(ctx, full['x'], 1, args), 'alg': expression(ctx, full['z'], 1, args)} if full['z'] else {'ode': expression(ctx, full['x'], 1, args)}
        else:
            kw = {'dae': expression(ctx, full['x'] + full['z'], 1, args), 'xdot': cs.MX.sym('xdot', full['x'])}
        put(k + ' row', **dict(kw, **{k: cs.MX.sym(k, 1, m)}))
        put(k + ' not symbolic', **dict(kw, **{k: 2 * cs.MX.sym(k, m)}))
        put(k + ' slice of a symbol', **dict(kw, **{k: cs.MX.sym(k, m + 1)[:m]}))
        put(k + ' struct of expressions', **dict(kw, **{k: expression_struct(ctx, cs.sin(cs.MX.sym(k, m)))}))
        put(k + ' struct with a constant', **dict(kw, **{k: ce.struct_MX([ce.entry('a', expr=cs.MX.sym(k, m - 1)), ce.entry('b', expr=cs.MX(cs.DM(1.)))])}))
        put(k + ' partly constant', **dict(kw, **{k: cs.vertcat(cs.MX.sym(k, m - 1), cs.MX(cs.DM(1.0)))}))
    # matrices with the right number of elements
    kw = {'ode': expression(ctx, 4, 1, args)} if kind == 'semi' else {'dae': expression(ctx, 4 + nz, 1, args), 'xdot': cs.MX.sym('xdot', 4)}
    put('x matrix', x=cs.MX.sym('x', 2, 2), **kw)
    put('u matrix', u=cs.MX.sym('u', 2, 2))
    kw = {'alg': expression(ctx, 4, 1, args)} if kind == 'semi' else {'dae': expression(ctx, 4 + nx, 1, args)}
    put('z matrix', z=cs.MX.sym('z', 2, 2), **kw)
    for k in ('p', 'tdp'):
        put(k + ' not symbolic', **{k: cs.MX.sym(k, 2) + 1})
        put(k + ' slice of a symbol', **{k: cs.MX.sym(k, 3)[1:]})
        put(k + ' constant', **{k: cs.MX(cs.DM([1., 2.]))})
    put('t not symbolic', t=cs.MX.sym('t') * 2)
    put('t constant', t=cs.MX(cs.DM(1.0)))
    put('t vector', t=cs.MX.sym('t', 2))
    put('t row', t=cs.MX.sym('t', 1, 2))
    put('t empty', t=cs.MX.sym('t', 0))
    for k, m in eqs.items():
        put(k + ' too long', **{k: expression(ctx, m + 1, 1, args)})
        if m > 0:
            put(k + ' too short', **{k: expression(ctx, m - 1, 1, args)})
        if m > 1:
            put(k + ' row', **{k: expression(ctx, 1, m, args)})
        if m == 4:
            put(k + ' matrix', **{k: expression(ctx, 2, 2, args)})
    if kind == 'semi':
        if nz:
            put('z without alg', alg=None)
            put('alg without z', z=None)
        else:
            put('z without alg', alg=None, z=cs.MX.sym('z', ctx.int(1, 2)))
            put('alg without z', z=None, alg=expression(ctx, ctx.int(1, 2), 1, args))
        if nz:
            put('ode too long, alg too short', ode=expression(ctx, nx + 1, 1, args), alg=expression(ctx, nz - 1, 1, args))
        if nx > 1:
            put('ode too short, alg too long', ode=expression(ctx, nx - 1, 1, args), alg=expression(ctx, nz + 1, 1, args))
        put('x too long', x=cs.MX.sym('x', nx + 1))
        put('z too long', z=cs.MX.sym('z', nz + 1))
        if nx != nz:
            put('ode and alg swapped in size', ode=expression(ctx, nz, 1, args), alg=expression(ctx, nx, 1, args))
    else:
        if nz:
            put('dae only as long as x', dae=expression(ctx, nx, 1, args))
            put('z missing for dae', z=None)
    return out


def rejected(ctx):
    kind = ctx.pick(['semi', 'implicit'])
    d, n = gen_parts(ctx, kind, stateless=0)
    cls(kind)(**d)                        # the starting point is consistent
    cases = defects(ctx, kind, d, n)
    for what, e in ctx.r.sample(cases, min(12, len(cases))):
        ctx.log('%s: %s', kind, what)
        try:
            m = cls(kind)(**e)
        except Exception:
            ctx.event('rejected', kind, what)
        else:
            ctx.fail('inconsistent %s model accepted: %s' % (kind, what), parts={k: v.shape for k, v in e.items()}, model=m)


WORKLOADS = {'accepted': (accepted, 800, 20000), 'rejected': (rejected, 500, 12000)}
REQUIRED = {'accepted': 600, 'rejected': 4000}
