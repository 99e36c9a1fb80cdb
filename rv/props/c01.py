"""Layout: the struct is an exact, ordered partition of its flat vector."""
import casadi as cs
import casadi_extras as ce

from ..genstruct import build, compare, fresh_values, gen_power, gen_spec, gen_repeat_index, power_kind, shape_of
from ..refstruct import impl_power

RULE = ('one distinct observation per (declaration, monitor, what was looked up); counted only if the declaration has '
        'repeats, nesting, grouping, sparsity, symmetry or an explicit order, or more than one entry')


def observe(ctx, o, spec, who):
    sig = spec.describe()
    ctx.check(int(o.size) == spec.size, 'size of ' + who, got=o.size, want=spec.size, decl=sig)
    ctx.check(list(o.keys()) == spec.keys, 'keys of ' + who, got=o.keys(), want=spec.keys, decl=sig)
    ctx.event('size', who, sig)

    # every primitive and every nested struct through .i
    for canon, e in spec.leaves:
        want = spec.matrix(canon, e, raw=True) - 1 if e.unit else spec.matrix(canon, e, raw=True)
        got = o.i[canon]
        ctx.check(got.shape == want.shape and got.sparsity() == spec.matrix(canon, e, raw=True).sparsity() and
                  list(got.nonzeros()) == [float(p) for p in spec.map[canon]],
                  '.i of %s' % (canon,), who=who, got=got, want=spec.map[canon], decl=sig)
        if e.dense and not (e.symm and e.nr > 1):
            f = o.f[canon]
            ctx.check([int(k) for k in f] == spec.map[canon], '.f of %s' % (canon,), who=who, got=f, decl=sig)
    for canon, pos in spec.nested.items():
        got = o.i[canon]
        ctx.check([int(k) for k in cs.DM(got).nonzeros()] == pos, '.i of nested %s' % (canon,), who=who, got=got, want=pos, decl=sig)
        f = o.f[canon]
        ctx.check([int(k) for k in f] == pos, '.f of nested %s' % (canon,), who=who, got=f, want=pos, decl=sig)
    ctx.event('index-maps', who, sig)

    # reverse lookup, exact partition
    k = 0
    for canon, e in spec.leaves:
        for r, c in e.stored:
            lin = r + c * e.nr
            exp = {0: canon, 1: canon + (lin,), 2: canon + (r, c)}
            for mode in (0, 1, 2):
                got = tuple(o.getCanonicalIndex(k, mode))
                ctx.check(got == exp[mode], 'getCanonicalIndex(%d, %d)' % (k, mode), who=who, got=got, want=exp[mode], decl=sig)
                lab = str(o.getLabel(k, mode)).replace(' ', '')
                ctx.check(lab == ('[' + ','.join(map(str, exp[mode])) + ']').replace(' ', ''), 'getLabel(%d, %d)' % (k, mode), got=lab, want=exp[mode])
            ctx.check(o.getLabel(k) == o.getLabel(k, 1), 'getLabel(%d)' % k, got=o.getLabel(k), want=exp[1])
            k += 1
    ctx.check(k == spec.size, 'model covers all positions')
    for mode in (0, 1, 2):
        ci = [tuple(t) for t in o.canonicalIndices(mode)]
        ctx.check(len(ci) == spec.size and all(tuple(o.getCanonicalIndex(j, mode)) == t for j, t in enumerate(ci)),
                  'canonicalIndices(%d)' % mode, got=ci)
        lab = o.labels(mode)
        ctx.check(lab == [o.getLabel(j, mode) for j in range(spec.size)], 'labels(%d)' % mode, got=lab)
    ctx.check(len(set(o.labels())) == spec.size, 'labels are distinct', got=o.labels())
    ctx.event('reverse-lookup', who, sig)
    for bad in (-1, spec.size, spec.size + 5):
        try:
            got = o.getCanonicalIndex(bad)
        except Exception:
            continue
        ctx.fail('getCanonicalIndex(%d) outside the struct must raise' % bad, got=got, decl=sig)


def layout(ctx):
    spec = gen_spec(ctx, depth=ctx.pick([0, 1, 2, 3]))
    ctx.log('declare %s', spec.describe())
    o = build(ctx, spec)
    observe(ctx, o, spec, 'struct')
    for kind in ctx.r.sample(['symSX', 'symMX'], 1):
        observe(ctx, build(ctx, spec, kind), spec, kind)
    v = o(cs.DM(fresh_values(ctx, spec.size)))
    observe(ctx, v, spec, 'DM')
    observe(ctx, v.struct, spec, 'structure')
    # nested structs are reachable and have the layout of their own declaration
    for e in spec.ents:
        if not e.prim:
            ctx.check(int(o.getStruct(e.name).size) == e.struct.size, 'getStruct', name=e.name)
            observe(ctx, o.getStruct(e.name), e.struct, 'getStruct')
    # the index returned for a flat position addresses that position
    vals = v.cat.full()[:, 0]
    for k in range(spec.size):
        for mode in (1, 2):
            got = v[tuple(o.getCanonicalIndex(k, mode))]
            ctx.check(cs.DM(got).shape == (1, 1) and float(cs.DM(got)) == vals[k],
                      'index of position %d (mode %d) does not read that position' % (k, mode), got=got, want=vals[k], decl=spec.describe())
    ctx.event('read-back', spec.describe())


def maps(ctx):
    """.i and .f with selections (slices, lists, names) instead of single elements."""
    spec = gen_spec(ctx, depth=ctx.pick([1, 2]))
    ctx.log('declare %s', spec.describe())
    o = build(ctx, spec, ctx.pick(['struct', 'symSX', 'symMX']))
    for _ in range(12):
        pw = gen_power(ctx, spec)
        ip = impl_power(pw, ce)
        want = spec.select(pw, raw=True)
        ctx.log('.i[%s]', pw)
        got = o.i[ip]
        compare_positions(ctx, got, want, '.i[%s] of %s' % (pw, spec.describe()))
        ctx.event('i-selection', power_kind(pw), shape_of(want) if not isinstance(want, cs.DM) else want.shape)
    for _ in range(12):
        e = ctx.pick(spec.ents)
        pw = [e.name]
        ok = True
        while True:
            for d in e.dims:
                pw.append(gen_repeat_index(ctx, d))
            if e.prim or not e.struct.ents or ctx.chance(0.3):
                ok = not e.prim or (e.dense and not (e.symm and e.nr > 1))
                break
            e = ctx.pick(e.struct.ents)
            pw.append(e.name)
        if not ok:
            continue
        pw = tuple(pw)
        want = spec.flat(pw)
        ctx.log('.f[%s]', pw)
        got = o.f[impl_power(pw, ce)]
        ctx.check(isinstance(got, list) and [int(k) for k in got] == want, '.f[%s]' % (pw,), got=got, want=want, decl=spec.describe())
        ctx.event('f-selection', power_kind(pw), len(want))


def compare_positions(ctx, got, want, what):
    """Positions agree (want counts from 1, structural zeros are absent)."""
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict) and set(got) == set(want), what + ' keys')
        for k in want:
            compare_positions(ctx, got[k], want[k], what)
    elif isinstance(want, (list, tuple)):
        ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want), what + ' list', got=got)
        for g, w in zip(got, want):
            compare_positions(ctx, g, w, what)
    else:
        g = cs.DM(got)
        ctx.check(g.shape == want.shape and g.sparsity() == want.sparsity() and
                  list(g.nonzeros()) == [x - 1 for x in want.nonzeros()], what, got=g, want_plus_one=want)


WORKLOADS = {'layout': (layout, 400, 8000), 'maps': (maps, 400, 8000)}
REQUIRED = {'index-maps': 300, 'reverse-lookup': 300, 'i-selection': 500, 'f-selection': 300, 'read-back': 100}
