"""Reading a struct selection returns exactly the addressed elements."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import build, compare, fresh_values, gen_power, gen_spec, overwrite, power_kind, same, shape_of, spice
from ..refstruct import impl_power

RULE = 'one distinct observation per (kind of power index, shape of the result, kind of read)'


def make(ctx, o, vals):
    k = ctx.int(0, 4)
    if k == 0:
        return o(cs.DM(vals))
    if k == 1:
        return o(np.array(vals))
    if k == 2:
        return o(list(map(float, vals)))
    if k == 3:
        return o(np.array(vals).reshape(-1, 1))
    return o(o(cs.DM(vals)).cat)


def read(ctx):
    spec = gen_spec(ctx, depth=ctx.pick([0, 1, 2, 2, 3]))
    ctx.log('declare %s', spec.describe())
    o = build(ctx, spec, ctx.pick(['struct', 'struct', 'symSX', 'symMX']))
    known = {} if ctx.chance(0.7) else None
    insts = []
    for _ in range(ctx.int(1, 3)):
        vals = fresh_values(ctx, spec.size)
        if ctx.chance(0.3):     # exact zeros stored in the vector are numbers, not holes
            vals[ctx.np.integers(0, spec.size, size=max(1, spec.size // 3))] = 0
        if ctx.chance(0.1):
            spice(ctx, vals)
        v = make(ctx, o, vals)
        insts.append((v, vals))
    for _ in range(16):
        v, vals = ctx.pick(insts)
        pw = gen_power(ctx, spec)
        ctx.log('read %s', pw)
        want = spec.read(pw, vals)
        how = 'plain'
        if isinstance(pw[0], str) and ctx.chance(0.3):
            how = 'prefix'
            k = ctx.int(1, len(pw))
            # a prefix may stop anywhere before the element indices
            p = v.prefix[impl_power(pw[:k], ce, known)]
            rest = pw[k:]
            got = p[impl_power(rest, ce, known)] if rest else p()
        else:
            got = v[impl_power(pw, ce, known)]
        compare(ctx, got, want, '%s read %s of %s' % (how, pw, spec.describe()))
        ctx.event('read', power_kind(pw), shape_of(want), how)
        if ctx.chance(0.25) and overwrite(got):
            compare(ctx, v[impl_power(pw, ce)], want, 'read %s of %s after modifying the first result in place' % (pw, spec.describe()))
            ctx.event('reread', power_kind(pw))
    for v, vals in insts:
        ctx.check(v.cat.shape == (spec.size, 1) and same(v.cat.full()[:, 0], vals), 'reading changed the struct',
                  decl=spec.describe(), history=ctx.trace)
    ctx.event('unchanged', spec.describe())


def whole(ctx):
    """Systematic: every entry, every repeat, every element of one declaration."""
    spec = gen_spec(ctx, depth=ctx.pick([1, 2]), limit=80)
    ctx.log('declare %s', spec.describe())
    o = build(ctx, spec)
    vals = fresh_values(ctx, spec.size)
    v = make(ctx, o, vals)
    for name in spec.keys:
        compare(ctx, v[name], spec.read((name,), vals), 'entry %s of %s' % (name, spec.describe()))
    for canon, e in spec.leaves:
        want = spec.read(canon, vals)
        compare(ctx, v[canon], want, 'entry %s of %s' % (canon, spec.describe()))
        for r in range(e.nr):
            for c in range(e.nc):
                for idx in ((r + c * e.nr,), (r, c), (r - e.nr, c - e.nc)):
                    compare(ctx, v[canon + idx], spec.read(canon + idx, vals), 'element %s of %s' % (canon + idx, spec.describe()))
        ctx.event('elements', e.describe())
    for canon in spec.nested:
        compare(ctx, v[canon], spec.read(canon, vals), 'nested %s of %s' % (canon, spec.describe()))


def shared(ctx):
    """One index object for rows and columns shaped by different structs with the same names."""
    names = ['a', 'b', 'c', 'd'][:ctx.int(2, 4)]
    axes = []
    for _ in range(ctx.int(2, 3)):
        n = list(names)
        ctx.r.shuffle(n)
        size = {k: ctx.int(1, 3) for k in n}
        start, pos = 0, {}
        for k in n:
            pos[k] = list(range(start, start + size[k]))
            start += size[k]
        axes.append((ce.struct([ce.entry(k, shape=size[k]) for k in n]), pos, start))
    ents = []
    for i in range(ctx.int(1, 3)):
        ents.append((ctx.pick(axes), ctx.pick(axes)))
    ctx.log('shapes %s', [(r[1], c[1]) for r, c in ents])
    o = ce.struct([ce.entry('P%d' % i, shapestruct=(r[0], c[0])) for i, (r, c) in enumerate(ents)])
    vals = fresh_values(ctx, int(o.size))
    v = o(cs.DM(vals))
    known = {}
    for _ in range(12):
        i = ctx.int(0, len(ents) - 1)
        (_, rp, nr), (_, cp, nc) = ents[i]
        off = sum(r[2] * c[2] for r, c in ents[:i])
        M = vals[off:off + nr * nc].reshape((nr, nc), order='F')
        kind = ctx.pick(['index', 'indexf'])
        rn, cn = ctx.pick(names), ctx.pick(names)
        get = lambda n: known.setdefault((kind, n), getattr(ce, kind)[n])
        got = v['P%d' % i, get(rn), get(cn)]
        ctx.check(same(cs.DM(got).full(), M[np.ix_(rp[rn], cp[cn])]), 'rows %s and columns %s of P%d by %s' % (rn, cn, i, kind), got=got, want=M[np.ix_(rp[rn], cp[cn])])
        ctx.event('shared', kind, len(rp[rn]), len(cp[cn]))


WORKLOADS = {'read': (read, 900, 20000), 'whole': (whole, 120, 2500), 'shared': (shared, 80, 2000)}
REQUIRED = {'reread': 1000, 'read': 4000, 'unchanged': 200, 'elements': 100, 'shared': 800}
