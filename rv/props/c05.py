"""Composing expressions into struct_MX / struct_SX preserves each expression."""
import itertools

import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import NAMES, Counter, build, compare, evaluate, gen_pattern, gen_power, gen_spec
from ..refstruct import Ent, Reject, Spec, impl_power

RULE = 'one distinct observation per (declaration, operation)'


class World(object):
    """A symbol w with a value, and expressions of w with known values."""
    def __init__(self, ctx, t, n=40):
        self.t, self.w, self.at = t, t.sym('w', n), np.round(ctx.np.normal(size=n) * 8) / 4
        self.ctx, self.cnt = ctx, Counter()

    def expr(self, sp):
        """Expression with sparsity sp and pairwise different stored values."""
        num = cs.DM(sp, list(np.atleast_1d(self.cnt.arr(sp.nnz())) if sp.nnz() else []))
        j = self.ctx.int(0, self.w.numel() - 1)
        k = self.ctx.r.random()
        if sp.nnz() == 0:
            return self.t(num), num
        if k < 0.3:
            return self.t(num), num
        e = self.t(num) + (self.w[j] - float(self.at[j])) * cs.DM.ones(sp)
        if k < 0.5:
            e = self.t(sp, cs.vec(e.nz[:]))
        return e, num

    def value(self, e):
        return evaluate(e, self.w, self.at)


def nest(dims, make):
    if not dims:
        return make()
    return [nest(dims[1:], make) for _ in range(dims[0])]


def split(x):
    if isinstance(x, list):
        p = [split(i) for i in x]
        return [i[0] for i in p], [i[1] for i in p]
    return x


def flat_list(x):
    return sum(map(flat_list, x), []) if isinstance(x, list) else [x]


def gen_expr_ent(ctx, name):
    dims = ctx.pick([[], [], [], [ctx.int(1, 3)], [ctx.int(1, 2), ctx.int(1, 3)]])
    nr, nc = ctx.int(1, 4), ctx.pick([1, 1, ctx.int(1, 4)])
    if ctx.chance(0.05):
        return Ent(name, [0], 0, 0)     # an empty list of expressions
    if ctx.chance(0.06):
        nr = 0
    nz = gen_pattern(ctx, nr, nc) if nr and ctx.chance(0.3) else None
    return Ent(name, dims, nr, nc, nz=nz)


def flatvec(spec, nums):
    """Flat vector of the model: stored elements in declared order."""
    out = np.zeros(spec.size)
    for canon, e in spec.leaves:
        m = nums[canon[0]]
        for i in canon[1:]:
            m = m[i]
        d = m.full()
        for p, (r, c) in zip(spec.map[canon], e.stored):
            out[p] = d[r, c]
    return out


def compose(ctx):
    t = ctx.pick([cs.MX, cs.MX, cs.SX])
    wd = World(ctx, t)
    n = ctx.int(1, 5)
    names = ctx.r.sample(NAMES, n)
    ents = [gen_expr_ent(ctx, nm) for nm in names]
    groups = order = None
    k = ctx.r.random()
    if n >= 2 and k < 0.25:
        groups = [tuple(names[:2])] + names[2:]
    elif n >= 2 and k < 0.6 and t is cs.MX:
        order = list(names)
        ctx.r.shuffle(order)
    spec = Spec(ents, groups, order)
    if spec.size == 0:
        return
    exprs, nums, entries = {}, {}, {}
    for e in ents:
        exprs[e.name], nums[e.name] = split(nest(e.dims, lambda: wd.expr(e.sparsity())))
        entries[e.name] = ce.entry(e.name, expr=exprs[e.name])
    args = [tuple(entries[x] for x in g) if isinstance(g, tuple) else entries[g] for g in spec.groups]
    ctx.log('compose %s %s', t.__name__, spec.describe())
    if t is cs.MX:
        o = ce.struct_MX(args, **({} if order is None else dict(order=order)))
    else:
        o = ce.struct_SX(args)

    def observe(what):
        want = flatvec(spec, nums)
        got = cs.DM(wd.value(o.cat))
        ctx.check(o.cat.shape == (spec.size, 1) and int(o.size) == spec.size, what + ': size', got=o.cat.shape, want=spec.size, decl=spec.describe())
        ctx.check(np.array_equal(got.full()[:, 0], want), what + ': flat vector', got=got, want=want, decl=spec.describe(), history=ctx.trace)
        ctx.check(list(o.keys()) == spec.keys, what + ': keys', got=o.keys(), want=spec.keys)
        for nm in spec.keys:
            compare(ctx, wd.value(o[nm]), nums[nm], what + ': entry %s of %s' % (nm, spec.describe()))
        ctx.event('composed', t.__name__, spec.describe(), what)

    observe('after construction')
    if ctx.chance(0.3):
        for nm in exprs:
            for m in leaves(exprs[nm]):
                if m.nnz() and ctx.chance(0.5):
                    m.nz[ctx.int(0, m.nnz() - 1)] = 55
        ctx.log('modify the expressions given')
        observe('after modifying the given expressions in place')
        ctx.event('source-modified', t.__name__, spec.describe())
    peek = ctx.chance(0.5)
    for _ in range(ctx.int(1, 4)):
        e = ctx.pick(ents)
        if e.dims and 0 not in e.dims and ctx.chance(0.6):
            idx = tuple(ctx.int(0, d - 1) for d in e.dims)
            x, v = wd.expr(e.sparsity())
            target = nums[e.name]
            for i in idx[:-1]:
                target = target[i]
            target[idx[-1]] = v
            o[(e.name,) + idx] = x
            ctx.log('assign %s', (e.name,) + idx)
        else:
            x, nums[e.name] = split(nest(e.dims, lambda: wd.expr(e.sparsity())))
            o[e.name] = x
            ctx.log('assign %s', e.name)
        if ctx.chance(0.4):
            # the struct holds what was assigned, not the object
            for m in leaves(x):
                if m.nnz():
                    m.nz[ctx.int(0, m.nnz() - 1)] = 77
            ctx.log('modify the expression assigned')
            observe('after modifying the assigned expression in place')
            ctx.event('source-modified', t.__name__, spec.describe())
        if t is cs.MX and ctx.chance(0.3):
            e = ctx.pick(ents)
            if 0 not in e.dims and e.sparsity().nnz():
                idx = (e.name,) + tuple(ctx.int(0, d - 1) for d in e.dims) + ctx.pick([(0,), (0, 0), (slice(None),)])
                try:
                    o[idx] = ctx.pick([3., cs.MX(3), wd.expr(e.sparsity())[0]])
                except Exception:
                    ctx.event('element-rejected', spec.describe(), idx)
                else:
                    ctx.fail('assignment to elements of an expression', index=idx, decl=spec.describe())
                observe('after a rejected assignment to elements')
        if peek or ctx.chance(0.4):
            observe('after reassignment')
    observe('after all reassignments')


def leaves(x):
    return [m for y in x for m in leaves(y)] if isinstance(x, list) else [x]


def fill(ctx):
    """struct_MX of a declared structure: unusable until complete, then filled in any order."""
    spec = gen_spec(ctx, 1, dict(symm=False, empty=False), limit=80)
    s = build(ctx, spec, ctx.pick(['struct', 'symMX', 'symSX']))
    wd = World(ctx, cs.MX)
    o = ce.struct_MX(s)
    ctx.log('fill %s', spec.describe())
    slots = []
    for e in spec.ents:
        for idx in itertools.product(*[range(d) for d in e.dims]):
            slots.append((e, (e.name,) + idx))
    ctx.r.shuffle(slots)
    vals = np.zeros(spec.size)
    mode = ctx.pick(['one-by-one', 'whole'])
    left = len(slots)
    for e, canon in slots:
        if ctx.chance(0.4):
            try:
                c = o.cat
            except Exception:
                pass
            else:
                ctx.fail('flat vector of an incomplete struct_MX must not be available', got=c, missing=left, decl=spec.describe())
            ctx.event('incomplete', spec.describe(), left)
        if e.prim:
            x, v = wd.expr(e.sparsity())
            vals[spec.map[canon]] = v.nonzeros()
        else:
            x, v = wd.expr(cs.Sparsity.dense(e.struct.size, 1))
            vals[spec.nested[canon]] = v.nonzeros()
        # wrong shapes and sparsities are rejected, whatever is stored already
        if ctx.chance(0.4):
            bad = ctx.pick([cs.MX.zeros(x.shape[0] + 1, x.shape[1]), cs.MX.zeros(x.shape[0], x.shape[1] + 1), cs.MX(x.shape[0], x.shape[1]),
                            cs.MX.ones(x.shape[1], x.shape[0])])
            if bad.sparsity() != x.sparsity():
                try:
                    o[canon] = bad
                except Exception:
                    ctx.event('mismatch-rejected', bad.dim(), x.dim())
                else:
                    ctx.fail('expression %s accepted for a slot of %s' % (bad.dim(), x.dim()), slot=canon, decl=spec.describe())
        o[canon] = x
        left -= 1
        ctx.log('assign %s', canon)
    got = cs.DM(wd.value(o.cat)).full()[:, 0]
    ctx.check(np.array_equal(got, vals), 'flat vector of the filled struct_MX', got=got, want=vals, decl=spec.describe(), history=ctx.trace)
    for canon, e in spec.leaves:
        compare(ctx, wd.value(o[canon]), spec.read(canon, vals), 'entry %s' % (canon,))
    ctx.event('filled', spec.describe())


def of_structs(ctx):
    """Structs as expressions of other structs."""
    subs, vals, args = [], [], []
    syms, at = [], []
    for k in range(ctx.int(1, 3)):
        spec = gen_spec(ctx, 1, dict(empty=False), limit=40)
        o = build(ctx, spec, 'symMX')
        v = ctx.np.normal(size=spec.size)
        form = ctx.pick(['sym', 'mx', 'cat'])
        nm = 'm%d' % k
        if form == 'sym':
            args.append(ce.entry(nm, expr=o))
        elif form == 'cat':
            args.append(ce.entry(nm, expr=o.cat))
        else:
            args.append(ce.entry(nm, expr=ce.struct_MX([ce.entry(q, expr=o.cat) for q in ('a',)])))
        syms.append(o.cat)
        at.append(v)
    ctx.log('structs of sizes %s', [len(v) for v in at])
    c = ce.struct_MX(args)
    f = cs.Function('f', syms, [c.cat] + [c['m%d' % k] for k in range(len(at))])
    out = f.call([cs.DM(v) for v in at])
    ctx.check(np.array_equal(out[0].full()[:, 0], np.hstack(at)), 'flat vector of stacked structs')
    for k, v in enumerate(at):
        ctx.check(np.array_equal(out[k + 1].full()[:, 0], v), 'struct %d of stacked structs' % k)
    ctx.event('structs', [len(v) for v in at])


def labelled(ctx):
    """Expressions declared together with a struct, a shape struct or the type 'symm'."""
    t = ctx.pick([cs.MX, cs.SX])
    spec = gen_spec(ctx, 2, dict(empty=False, order=t is cs.MX), limit=80)
    wd = World(ctx, t)
    vals = np.zeros(spec.size)
    made = {}
    for e in spec.ents:
        kw = {}
        if not e.prim:
            kw['struct'] = build(ctx, e.struct, ctx.pick(['struct', 'symSX', 'symMX']))
        elif e.shapestruct is not None:
            ss = tuple(s if isinstance(s, int) else build(ctx, s) for s in e.shapestruct)
            kw['shapestruct'] = ss[0] if e.ssform == 'a' else ss
        if e.symm:
            kw['type'] = 'symm'

        def make(idx):
            if len(idx) < len(e.dims):
                return [make(idx + (i,)) for i in range(e.dims[len(idx)])]
            canon = (e.name,) + idx
            x, v = wd.expr(e.sparsity(e.stored) if e.prim else cs.Sparsity.dense(e.struct.size, 1))
            vals[(spec.map if e.prim else spec.nested)[canon]] = v.nonzeros()
            return x

        made[e.name] = ce.entry(e.name, expr=make(()), **kw)
    args = [tuple(made[x] for x in g) if isinstance(g, tuple) else made[g] for g in spec.groups]
    ctx.log('labelled %s %s', t.__name__, spec.describe())
    if t is cs.MX:
        # a nested struct takes part in a group as a whole
        o = ce.struct_MX(args, **({} if spec.order_kw is None else dict(order=list(spec.order_kw))))
    else:
        o = ce.struct_SX(args)
    got = cs.DM(wd.value(o.cat)).full()[:, 0]
    ctx.check(np.array_equal(got, vals), 'flat vector', got=got, want=vals, decl=spec.describe())
    for _ in range(6):
        pw = gen_power(ctx, spec)
        try:
            want = spec.read(pw, vals)
        except Reject:
            continue
        ctx.log('read %s', pw)
        compare(ctx, wd.value(o[impl_power(pw, ce)]), want, 'read %s of %s' % (pw, spec.describe()))
        ctx.event('labelled', t.__name__, spec.describe(), pw)


WORKLOADS = {'compose': (compose, 500, 10000), 'fill': (fill, 250, 5000), 'of_structs': (of_structs, 80, 1500), 'labelled': (labelled, 200, 4000)}
REQUIRED = {'composed': 900, 'source-modified': 200, 'element-rejected': 60, 'filled': 150, 'incomplete': 100, 'mismatch-rejected': 100, 'structs': 50, 'labelled': 600}
