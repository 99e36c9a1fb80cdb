"""Invalid struct declarations and accesses are rejected."""
import traceback

import casadi as cs
import numpy as np
import casadi_extras as ce

from ..core import Harness
from ..genstruct import NAMES, build, build_entry, fresh_values, gen_ent, gen_spec
from ..refstruct import Ent, NestedDict, Spec, impl_power

RULE = 'one distinct observation per (class of the invalid use, declaration)'


def must_raise(ctx, what, f, *sig, **detail):
    try:
        r = f()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if '/rv/' in tb[-1].filename and not isinstance(e, TypeError):
            raise Harness('mistake in the test of %s: %r' % (what, e))
        ctx.event('rejected', what, *sig)
        return e
    ctx.fail('%s was accepted' % what, got=r, **detail)


CTORS = {'struct': ce.struct, 'symSX': ce.struct_symSX, 'symMX': ce.struct_symMX}


def good_entries(ctx, n, avoid=()):
    opts = dict(empty=False, symm=False, shapestruct=False)
    return [build_entry(ctx, gen_ent(ctx, nm, 1, opts, [])) for nm in ctx.r.sample([x for x in NAMES if x not in avoid], n)]


def declarations(ctx):
    kind = ctx.pick(list(CTORS))
    ctor = CTORS[kind]
    e, ent = ce.entry, 'x'
    sub = ce.struct([e('a'), e('b', shape=2)])
    mx, sx = cs.MX.sym('m', 2), cs.SX.sym('s', 2)
    rest = good_entries(ctx, ctx.int(0, 2), avoid=('x', 'y'))

    def decl(*ents, **kw):
        l = rest + list(ents)
        ctx.r.shuffle(l)
        return lambda: ctor(l, **kw)

    good = ctor(rest + [e('x')])        # the same declaration without the defect is fine
    ctx.check(int(good.size) > 0, 'valid declaration')
    where = '%s with %d other entries' % (kind, len(rest))
    # duplicate names
    must_raise(ctx, 'duplicate name', decl(e('x'), e('x', shape=ctx.int(1, 3))), where)
    must_raise(ctx, 'duplicate name in a group', lambda: ctor(rest + [(e('x', repeat=2), e('x', repeat=2))]), where)
    must_raise(ctx, 'duplicate name across a group', lambda: ctor(rest + [(e('x', repeat=2), e('y', repeat=2)), e('y')]), where)
    must_raise(ctx, 'duplicate names given as strings', lambda: ctor(rest + ['x', 'y', 'x']), where)
    l = [e('x'), e('y'), e('x', shape=ctx.int(1, 3))]
    ctx.r.shuffle(l)
    must_raise(ctx, 'duplicate name with an order', lambda: ctor(l, order=ctx.pick([['x', 'y'], ['y', 'x'], ['y'], ['x']])), kind)
    # unknown arguments
    bad = ctx.pick(['shapes', 'size', 'repeats', 'symm', 'name_', 'Shape', 'expression', 'types'])
    must_raise(ctx, 'unknown argument', lambda: e('x', **{bad: ctx.int(1, 3)}), bad)
    must_raise(ctx, 'unnamed argument', lambda: e('x', ctx.int(1, 3)), where)
    must_raise(ctx, 'missing name', lambda: e(), where)
    # contradictory arguments
    combos = {'shape+struct': dict(shape=3, struct=sub), 'struct+shapestruct': dict(struct=sub, shapestruct=sub),
              'sym+shape': dict(sym=sx, shape=2), 'sym+repeat': dict(sym=sx, repeat=2), 'sym+expr': dict(sym=sx, expr=sx),
              'expr+shape': dict(expr=mx, shape=2), 'expr+repeat': dict(expr=mx, repeat=2),
              'shape+struct ': dict(shape=(3, 1), struct=sub), 'all': dict(shape=2, struct=sub, repeat=2)}
    for k in ctx.r.sample(sorted(combos), 3):
        must_raise(ctx, 'contradictory arguments', lambda: e('x', **combos[k]), k)
    # repeats
    r = ctx.pick([2.0, 1.5, '2', [2, 'a'], [1.5], [2, 2.5], None, [None], (2,), np.array([2]), {}, [[2]], float('nan')])
    must_raise(ctx, 'non-integer repeat', lambda: e('x', repeat=r), repr(r))
    r = ctx.pick([-1, -2, [-1], [2, -1], [-1, 2], [-3, -2], -7])
    must_raise(ctx, 'negative repeat', lambda: e('x', repeat=r), repr(r))
    # shapes
    s = ctx.pick([2.5, '2', (), [], (1, 2, 3), [1, 2, 3], (2, 2, 1), [2, 1, 1], (1, 1, 1), (2, 2, 1, 1), (2, 2, 0), {}, None, (2.5,), (2, 'a')])
    must_raise(ctx, 'impossible shape', lambda: e('x', shape=s), repr(s))
    s = ctx.pick([2, 'a', (), (sub, sub, sub), (sub, 'a'), ('a',), None, [sub]])
    must_raise(ctx, 'impossible struct shape', lambda: e('x', shapestruct=s), repr(s))
    k = ctx.pick([1, 2, 4, 5])
    x = ctx.pick([dict(shape=(k, k)), dict(shape=(3, k)), dict(shape=(k, 3)), dict(shape=cs.Sparsity.lower(k)), dict(sym=cs.SX.sym('q', 3, k)),
                  dict(sym=cs.MX.sym('q', k, 3)), dict(expr=cs.MX.sym('q', k, k)), dict(expr=[cs.SX.sym('q', k, 3)])])
    must_raise(ctx, 'shape contradicting the struct shape', lambda: e('x', shapestruct=(sub, ctx.pick([3, sub])), **x), k, repr(x))
    must_raise(ctx, 'shape contradicting the struct shape', lambda: e('x', shapestruct=sub, **ctx.pick([dict(shape=k), dict(shape=(k, 1)), dict(sym=cs.SX.sym('q', k)), dict(expr=cs.MX.sym('q', k))])), k, 'vector')
    # order
    o = ctx.pick([['z'], ['x', 'z'], ['z', 'x', 'y'], [('x', 'z'), 'y'], ['x', 'y', 'xx'], ['X', 'y'], [('x', 'y', 'z')]])
    must_raise(ctx, 'order naming unknown entries', lambda: ctor([e('x'), e('y')], order=o), kind, repr(o))
    o = ctx.pick([['x', 'x'], ['x', 'y', 'x'], ['y', 'y', 'x'], [('x', 'y'), 'x'], [('x', 'x'), 'y'], [('x', 'y'), ('y', 'x')]])
    must_raise(ctx, 'order naming an entry twice', lambda: ctor([e('x', repeat=ctx.int(1, 2)), e('y', repeat=2)], order=o), kind, repr(o))
    must_raise(ctx, 'order in addition to groups', lambda: ctor([(e('x', repeat=2), e('y', repeat=2)), e('z')], order=['x', 'y', 'z']), kind)
    # symmetric entries
    n, m = ctx.int(1, 4), ctx.int(1, 4)
    if n != m:
        must_raise(ctx, 'non-square symmetric entry', lambda: e('x', shape=(n, m), type='symm'), n, m)
        must_raise(ctx, 'non-square symmetric entry ', lambda: ctor(rest + [e('x', shape=cs.Sparsity.dense(n, m), type='symm', repeat=2)]), n, m)
    if n > 1:
        must_raise(ctx, 'symmetric vector', lambda: e('x', shape=n, type='symm'), n)
    must_raise(ctx, 'non-square symmetric struct shape', lambda: e('x', shapestruct=(sub, 2), type='symm'), kind)
    must_raise(ctx, 'symmetric nested struct', lambda: e('x', type='symm', **ctx.pick([dict(struct=sub), dict(struct=sub, repeat=2), dict(sym=ce.struct_symMX([e('a')]))])), kind)
    must_raise(ctx, 'unknown type', lambda: e('x', shape=(2, 2), type=ctx.pick(['sym', 'Symm', 'diag', 1, ''])), kind)
    # symbols and expressions
    expr = ctx.pick([mx, 2 * mx, sx, 2 * sx, cs.DM([1, 2]), [mx, mx]])
    if kind != 'struct':
        must_raise(ctx, 'expression in a symbolic struct', decl(e('x', expr=expr)), kind)
        must_raise(ctx, 'expression in a group of a symbolic struct', lambda: ctor(rest + [(e('x', expr=expr), e('y'))]), kind)
    must_raise(ctx, 'sym= that is no symbol', lambda: e('x', sym=ctx.pick([2 * sx, mx, cs.DM(1), 'x', 1.0, cs.vertcat(sx, 1), sx[0] + sx[1]])), kind)
    must_raise(ctx, 'sym= a struct of no symbols', lambda: e('x', sym=ctx.pick([lambda: ce.struct_SX([e('a', expr=2 * sx)]), lambda: ce.struct_SX([e('a', expr=sx), e('b', expr=sx[0] + 1)]),
                                                                               lambda: sub(1.), lambda: sub, lambda: ce.struct_MX([e('a', expr=mx + 1)]), lambda: sub(2 * cs.SX.sym('q', 3)), lambda: sub(cs.SX.zeros(3))])()), kind)
    must_raise(ctx, 'struct= that is no struct', lambda: e('x', struct=ctx.pick([3, 'a', [e('a')], (sub,), mx, sx, {'a': 1}, cs.Sparsity.dense(2, 2)])), kind)
    if kind == 'symMX':
        must_raise(ctx, 'SX symbol in an MX struct', decl(e('x', sym=sx)), kind)
    for c, t in ((ce.struct_MX, mx), (ce.struct_SX, sx)):
        must_raise(ctx, 'symbols in an expression struct', lambda: c([e('x', expr=t), e('y', shape=ctx.int(1, 3))]), c)
        must_raise(ctx, 'symbols in an expression struct (first)', lambda: c([e('y'), e('x', expr=t)]), c)
        must_raise(ctx, 'symbols in an expression struct (group)', lambda: c([(e('x', expr=[t]), e('y', repeat=1))]), c)
    must_raise(ctx, 'expression that is no matrix', lambda: e('x', expr=ctx.pick(['a', 1, 2.5, [1, 2], (mx, mx), {}, [['a']]])), kind)
    for a in ctx.r.sample(['x', None, (e('x'),), {'x': 1}, 3, e('x'), {e('x')}], 2):
        must_raise(ctx, 'list of entries that is no list', lambda: ctor(a), kind, type(a))


def accesses(ctx):
    spec = gen_spec(ctx, ctx.pick([0, 1, 2]), dict(empty=False), limit=80)
    kind = ctx.pick(['DM', 'DM', 'DM', 'SX', 'MX', 'symSX', 'symMX'])
    ctx.log('declare %s as %s', spec.describe(), kind)
    o = build(ctx, spec, kind if kind.startswith('sym') else ctx.pick(['struct', 'symSX', 'symMX']))
    vals = fresh_values(ctx, spec.size)
    v = o
    if kind == 'DM':
        v = o(cs.DM(vals))
    elif kind in ('SX', 'MX'):
        v = o(getattr(cs, kind)(cs.DM(vals)))

    def read(what, pw, attr=None):
        x = {None: v, 'i': o.i, 'f': o.f}[attr]
        must_raise(ctx, what, lambda: x[impl_power(pw, ce)], spec.describe() if attr is None else attr, index=pw, decl=spec.describe())
        if kind == 'DM':
            ctx.check(np.array_equal(v.cat.full()[:, 0], vals), 'a rejected read changed the data', index=pw, got=v.cat)

    attr = ctx.pick([None, None, None, 'i', 'f'])
    unknown = [n for n in NAMES + ['nope', '', 'X', 'None'] if n not in spec.d]
    u = ctx.pick(unknown)
    read('unknown name', (u,), attr)
    read('unknown name in a list', ([ctx.pick(spec.keys), u],), attr)
    read('unknown name in a set', ({ctx.pick(spec.keys), u},), attr)
    read('slice instead of a name', (slice(None),))
    read('number instead of a name', (ctx.int(-2, spec.size),))
    canon, e = ctx.pick(spec.leaves)
    ent = spec.d[canon[0]]
    # out of range repeat indices, at any level
    pos = [j for j, c in enumerate(canon) if not isinstance(c, str)]
    dims = []
    s, j = spec, 0
    while j < len(canon):
        en = s.d[canon[j]]
        for d in en.dims:
            j += 1
            dims.append((j, d))
        j += 1
        s = en.struct
    for j, d in dims:
        for bad in ([d], [d + ctx.int(1, 5)], [-d - 1], [-d - ctx.int(2, 5)]):
            b = bad[0]
            form = ctx.pick(['int', 'list', 'npint'])
            x = b if form == 'int' else [0, b] if form == 'list' else np.int64(b)
            cut = len(canon) if ctx.chance(0.6) else j + 1
            read('repeat index out of range', canon[:j] + (x,) + canon[j + 1:cut], ctx.pick([None, attr]) if form == 'int' else None)
        if ctx.chance(0.3):
            read('name instead of a repeat index', canon[:j] + ('x',))
            read('dict or set instead of a repeat index', canon[:j] + (ctx.pick([{}, {'x'}, {0}, {'x': 1}]),))
            read('object instead of a repeat index', canon[:j] + (ctx.pick([None, 1.5, object(), (0,)]),))
    # superfluous and out-of-range element indices
    read('three element indices', canon + (0, 0, 0))
    if e.shapestruct is None:
        read('name below a matrix', canon + ('x',))
        read('delayed index on a plain matrix', canon + (_delegate(ctx), 0))
    else:
        read('unknown name in a struct shape', canon + ('nope',) + ((0,) if e.nc > 1 else ()))
    if not e.symm:
        read('row out of range', canon + (e.nr + ctx.int(0, 3), 0))
        read('column out of range', canon + (0, e.nc + ctx.int(0, 3)))
        read('negative row out of range', canon + (-e.nr - 1, 0))
        read('element out of range', canon + (e.nr * e.nc + ctx.int(0, 2),))
    if not ent.prim:
        up = (canon[0],) + (0,) * len(ent.dims)
        read('unknown name in a nested struct', up + (ctx.pick([n for n in NAMES if n not in ent.struct.d]),))
    # flat lookups
    for i in (spec.size, spec.size + ctx.int(1, 9), -1, -spec.size, -spec.size - 1):
        must_raise(ctx, 'flat position out of range', lambda: o.getCanonicalIndex(i), 'lookup', i=i, size=spec.size)
    # structs of entries
    must_raise(ctx, 'struct of an unknown entry', lambda: o.getStruct('nope'), 'getStruct')
    if ent.prim:
        must_raise(ctx, 'struct of an entry which has none', lambda: o.getStruct(canon[0]), 'getStruct', name=canon[0])


def _delegate(ctx):
    return ce.index['a'] if ctx.chance(0.5) else ce.indexf['a']


def payloads(ctx):
    """Assignments that do not fit."""
    spec = gen_spec(ctx, ctx.pick([0, 1]), dict(empty=False), limit=60)
    kind = ctx.pick(['DM', 'DM', 'SX', 'MX', 'mutMX'])
    ctx.log('declare %s as %s', spec.describe(), kind)
    o = build(ctx, spec, ctx.pick(['struct', 'symSX', 'symMX']))

    def fresh():
        vals = cs.DM(fresh_values(ctx, spec.size))
        if kind == 'mutMX':
            return ce.struct_MX_mutable(o, data=cs.MX(vals))
        return o(vals if kind == 'DM' else getattr(cs, kind)(vals))

    def write(what, pw, pay, *sig):
        v = fresh()

        def f():
            v[impl_power(pw, ce)] = pay
            return v.cat
        must_raise(ctx, what, f, (kind,) + sig, index=pw, payload=pay, decl=spec.describe())

    def mat(r, c):
        m = cs.DM(ctx.np.normal(size=(r, c)))
        if kind == 'DM':
            return m.full() if ctx.chance(0.4) else m
        t = cs.SX if kind == 'SX' else cs.MX
        return ctx.pick([m, t(m), t.sym('q', r, c)])

    write('assignment to an unknown name', (ctx.pick([n for n in NAMES if n not in spec.d]),), 1.)
    canon, e = ctx.pick(spec.leaves)
    n = e.nr * e.nc
    for r, c in ((e.nr + 1, e.nc), (e.nr, e.nc + 1), (e.nr + 1, e.nc + 1), (n + 1, 1)):
        if r * c not in (1, n) and e.unit > 0:
            write('right-hand side of a wrong shape', canon, mat(r, c), e.describe())
    # as many elements, but not the shape (a row for a column is casadi's own rule)
    if e.nr > 1 and e.nc > 1:
        for r, c in {(e.nc, e.nr), (n, 1), (1, n), (n // 2, 2) if n % 2 == 0 else (n, 1)} - {(e.nr, e.nc)}:
            write('right-hand side of another shape with as many elements', canon, mat(r, c), e.describe())
        write('vector for a matrix', canon, ctx.np.normal(size=n), e.describe())
        write('list for a matrix', canon, [1.] * n, e.describe())
    elif e.nc == 1 and n > 2 and n % 2 == 0:
        write('right-hand side of another shape with as many elements', canon, mat(*ctx.pick([(2, n // 2), (n // 2, 2)])), e.describe())
    if e.dense and not e.symm and n > 1:
        write('row of a wrong length', canon + (0, slice(None)), mat(1, e.nc + 1) if e.nc != 0 else 1, e.describe())
        write('element from a matrix', canon + (0, 0), mat(2, 2))
    write('text as a value', canon, 'abc')
    write('object as a value', canon, object())
    write('three element indices', canon + (0, 0, 0), 1.)
    if not e.symm:
        write('element out of range', canon + (e.nr, 0), 1.)
    if e.unit > 0:
        # a symbol of another type is neither stored nor turned into a number
        t = ctx.pick([cs.SX, cs.MX]) if kind == 'DM' else cs.MX if kind == 'SX' else cs.SX
        name = t.__name__ + ' symbol'
        write(name, canon, t.sym('q'))
        write(name + ' with numbers', canon, t.sym('q') + 1)
        write(name + ' for an element', canon + (0, 0) if (0, 0) in e.stored and not e.symm else canon, t.sym('q'))
        write(name + 's', canon, t.sym('q', e.sparsity()))
        write(name + 's of a struct', canon, o(t.sym('q', spec.size)) if spec.size == n else (ce.struct_symSX if t is cs.SX else ce.struct_symMX)(['q']))
        write(name + ' in a dict', ({},), {canon[0]: t.sym('q')})
        write(name + ' repeated', (Ellipsis,), ce.repeated(t.sym('q')))
        write(name + ' in a list', (Ellipsis,), [t.sym('q')] * len(spec.keys))
        if n > 1 and e.nc == 1:
            write(name + 's in a list of scalars', canon, [t.sym('q%d' % i) for i in range(n)])
        write(name + ' everywhere', (NestedDict(),), t.sym('q'))
    for ent in spec.ents:
        if ent.dims:
            d = ent.dims[0]
            if d > 1 or d == 1:
                short_ = [1.] * ctx.int(0, d - 1)
                write('too few list elements', (ent.name,), short_, d)
                write('too few list elements (slice)', (ent.name, slice(None)), short_, d)
                write('too few list elements (nesteddict)', (NestedDict(),), {ent.name: short_}, d)
                write('too few list elements (dict)', ({},), {ent.name: short_}, d)
                write('too few list elements (set)', ({ent.name},), {ent.name: short_}, d)
                write('too few list elements (names)', ([ent.name],), [short_], d)
            if len(ent.dims) > 1:
                write('too few list elements below', (ent.name,), [[1.] * (ent.dims[1] - 1)] * d, d, ent.dims[1])
            write('repeat index out of range', (ent.name, ctx.pick([d, -d - 1, d + 3])), 1.)
        if not ent.prim:
            up = (ent.name,) + (0,) * len(ent.dims)
            write('unknown name in a nested struct', up + ('nope',), 1.)
            if ent.struct.size > 0:
                write('vector of a wrong length for a nested struct', up, mat(ent.struct.size + 2, 1), ent.struct.size)
    write('unknown name in a list', ([spec.keys[0], 'nope'],), [1., 2.])
    # unknown names among the right-hand sides
    write('unknown name in a dict', ({},), {'nope': 1.})
    write('unknown name in a dict with others', (ctx.pick([{}, NestedDict()]),), {canon[0]: 1., 'nope': 1.})
    for ent in spec.ents:
        if not ent.prim:
            up = (ent.name,) + (0,) * len(ent.dims)
            write('unknown name in a dict for a nested struct', up + (ctx.pick([{}, NestedDict()]),), {ent.struct.keys[0]: 1., 'nope': 1.})
            write('unknown name in a nested dict', (NestedDict(),), {ent.name: {'nope': 1.}})
    if e.symm and not e.dense:
        full = cs.DM(ctx.np.normal(size=(e.nr, e.nc)))
        write('dense matrix for a sparse symmetric one', canon, full + full.T, e.describe())
    if len(spec.keys) > 1:
        write('too few list elements for all names', (Ellipsis,), [1.] * ctx.int(0, len(spec.keys) - 1), len(spec.keys))
        write('too few list elements for names', (list(spec.keys),), [1.] * (len(spec.keys) - 1), len(spec.keys))


WORKLOADS = {'declarations': (declarations, 200, 4000), 'accesses': (accesses, 400, 8000), 'payloads': (payloads, 350, 7000)}
REQUIRED = {'rejected': 10000}
