"""Reading a symbolic struct commutes with evaluation."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import build, build_entry, compare, evaluate, fresh_values, gen_power, gen_spec, overwrite, power_kind, shape_of
from ..refstruct import Ent, Spec, impl_power

RULE = 'one distinct observation per (kind of symbolic struct, kind of power index, shape of the result)'


def reads(ctx, o, spec, sym, at, vals, kind, n, tol=0.0):
    for _ in range(n):
        pw = gen_power(ctx, spec)
        ctx.log('%s read %s', kind, pw)
        want = spec.read(pw, vals)
        r = o[impl_power(pw, ce)]
        got = evaluate(r, sym, at)
        compare(ctx, got, want, '%s read %s of %s' % (kind, pw, spec.describe()), tol)
        if ctx.chance(0.3) and overwrite(r):
            got = evaluate(o[impl_power(pw, ce)], sym, at)
            compare(ctx, got, want, '%s read %s of %s after modifying the first result in place' % (kind, pw, spec.describe()), tol)
            ctx.event('reread', kind, power_kind(pw))
        ctx.event('commute', kind, power_kind(pw), shape_of(want))


def symbols(ctx):
    spec = gen_spec(ctx, depth=ctx.pick([0, 1, 2]), limit=120)
    ctx.log('declare %s', spec.describe())
    vals = fresh_values(ctx, spec.size)
    for kind in ('symSX', 'symMX'):
        o = build(ctx, spec, kind)
        s = o.cat
        ctx.check(s.shape == (spec.size, 1), 'flat vector of %s' % kind, got=s.shape, decl=spec.describe())
        ctx.check(s.is_valid_input() and s.is_dense(), 'flat vector of %s must be symbolic' % kind, decl=spec.describe())
        # independent: the identity map has an identity Jacobian
        if kind == 'symSX':
            names = cs.symvar(s)
            ctx.check(len(names) == spec.size, 'number of different symbols', got=len(names), want=spec.size, decl=spec.describe())
        f = cs.Function('f', [s], [cs.jacobian(s, s)])
        ctx.check(np.array_equal(f(vals).full(), np.eye(spec.size)), 'symbols of %s are not independent' % kind)
        ctx.event('symbols', kind, spec.describe())
        reads(ctx, o, spec, s, vals, vals, kind, 5)
        # another struct of the same declaration has symbols of its own
        other = build(ctx, spec, kind) if ctx.chance(0.5) else {'symSX': ce.struct_symSX, 'symMX': ce.struct_symMX}[kind](o.struct if ctx.chance(0.5) else [ce.entry('a', shape=spec.size)])
        diff = cs.Function('d', [o.cat, other.cat], [o.cat - 2 * other.cat])
        ctx.check(np.array_equal(diff(vals, vals + 1).full()[:, 0], vals - 2 * (vals + 1)), 'two structs share symbols', kind=kind, decl=spec.describe())
        ctx.event('independent', kind, spec.describe())
        # usable wherever a matrix is
        g = cs.Function('g', [o], [cs.vertcat(s, 2 * s)])
        ctx.check(np.array_equal(g(vals).full()[:, 0], np.r_[vals, 2 * vals]), 'struct used as function argument')


def wrapped(ctx):
    """Structs around SX/MX vectors that are symbols or expressions."""
    spec = gen_spec(ctx, depth=ctx.pick([0, 1, 2]), limit=120)
    ctx.log('declare %s', spec.describe())
    o = build(ctx, spec, ctx.pick(['struct', 'symSX', 'symMX']))
    vals = fresh_values(ctx, spec.size, digits=False)
    t = ctx.pick([cs.SX, cs.MX])
    kind = 'wrapped-' + t.__name__
    w = t.sym('w', spec.size)
    form = ctx.pick(['sym', 'affine', 'perm', 'const'])
    if form == 'sym':
        e, at = t(w), vals
    elif form == 'affine':
        e, at = 2 * w + 1, (vals - 1) / 2
    elif form == 'perm':
        p = ctx.np.permutation(spec.size)
        e, at = w[[int(i) for i in p]], np.zeros(spec.size)
        at[p] = vals
    else:
        e, at = t(cs.DM(vals)), vals
    how = ctx.int(0, 1)
    if how == 0:
        v = o(e)
    elif t is cs.MX:
        v = ce.struct_MX_mutable(o, data=e)
    else:
        v = ce.struct_SX(o, data=e)
    ctx.check(isinstance(v.cat, t), 'type of the flat vector', got=type(v.cat))
    reads(ctx, v, spec, w, at, vals, kind, 7)


def given_symbols(ctx):
    """Entries declared with SX symbols use these symbols."""
    n = ctx.int(1, 4)
    names = ctx.r.sample(['x', 'y', 'z', 'u', 'p', 'q'], n)
    ents, args, syms = [], [], []
    for nm in names:
        k = ctx.r.random()
        if k < 0.5:
            form = ctx.pick(['vec', 'mat', 'sparse'])
            nr, nc = ctx.int(1, 4), 1 if form == 'vec' else ctx.int(1, 3)
            e = Ent(nm, [], nr, nc, nz=[(i, i) for i in range(min(nr, nc))] if form == 'sparse' else None)
            s = cs.SX.sym(nm, e.sparsity())
            args.append(ce.entry(nm, sym=s))
            syms.append((nm, s))
        elif k < 0.65:
            # symbols declared together with a struct, a shape struct or the type 'symm'
            form = ctx.pick(['struct', 'shapestruct', 'symm'])
            a, b = [gen_spec(ctx, 0, dict(symm=False, shapestruct=False, empty=False), [], n=2, limit=6) for _ in 'ab']
            if form == 'struct':
                e, kw = Ent(nm, struct=a), dict(struct=build(ctx, a))
                s = cs.SX.sym(nm, a.size)
            elif form == 'shapestruct':
                e, kw = Ent(nm, [], a.size, b.size, shapestruct=(a, b)), dict(shapestruct=(build(ctx, a), build(ctx, b)))
                s = cs.SX.sym(nm, e.sparsity())
            else:
                e, kw = Ent(nm, [], a.size, a.size, shapestruct=(a, a), symm=True), dict(shapestruct=(build(ctx, a),) * 2, type='symm')
                s = cs.SX.sym(nm, e.sparsity(e.stored))
            args.append(ce.entry(nm, sym=s, **kw))
            if form != 'symm':
                syms.append((nm, s))
            ctx.event('labelled-symbols', form, e.describe())
        elif k < 0.8:
            sub = gen_spec(ctx, 0, dict(symm=False, shapestruct=False, empty=False), [], n=2)
            so = build(ctx, sub, 'symSX')
            args.append(ce.entry(nm, sym=so))
            e = Ent(nm, struct=sub)
            syms.append((nm, so.cat))
        else:
            e = Ent(nm, [2], 2, 1) if ctx.chance(0.5) else Ent(nm, [], 3, 2)
            args.append(build_entry(ctx, e))
        ents.append(e)
    spec = Spec(ents)
    ctx.log('declare %s with symbols for %s', spec.describe(), [s[0] for s in syms])
    o = ce.struct_symSX(args)
    vals = fresh_values(ctx, spec.size)
    reads(ctx, o, spec, o.cat, vals, vals, 'given', 6)
    for nm, s in syms:
        # evaluating the entry as a function of the given symbols only
        f = cs.Function('f', [s], [o[nm]])
        x = cs.DM(s.sparsity(), list(map(float, ctx.np.normal(size=s.nnz()))))
        ctx.check(np.array_equal(f(x).full(), x.full()), 'entry %s does not consist of the given symbols' % nm, decl=spec.describe())
        ctx.event('given-symbols', nm in spec.d and spec.d[nm].describe())


WORKLOADS = {'symbols': (symbols, 250, 5000), 'wrapped': (wrapped, 300, 6000), 'given_symbols': (given_symbols, 120, 2000)}
REQUIRED = {'reread': 300, 'symbols': 200, 'independent': 400, 'commute': 2000, 'given-symbols': 60, 'labelled-symbols': 15}
