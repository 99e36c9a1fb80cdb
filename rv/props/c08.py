"""Symmetric entries are stored once and read back symmetric."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import Counter, NAMES, build, compare, evaluate, fresh_values, gen_dims, gen_pattern, gen_spec
from ..refstruct import Ent, Spec, impl_power

RULE = 'one distinct observation per (declaration of the symmetric entry, kind of access)'


def gen(ctx, n_ents=None, expr=False):
    ents = []
    for nm in ctx.r.sample(NAMES, n_ents or ctx.int(1, 4)):
        k = ctx.r.random()
        dims = gen_dims(ctx, empty=False)
        if k < 0.6 or not ents:
            n = ctx.int(1, 5)
            nz = gen_pattern(ctx, n, n, True) if ctx.chance(0.4) else None
            if nz and ctx.chance(0.3):      # hollow: no diagonal at all
                nz = [rc for rc in nz if rc[0] != rc[1]] or nz
            e = Ent(nm, dims, n, n, nz=nz, symm=True)
        elif k < 0.75:
            a = gen_spec(ctx, 0, dict(shapestruct=False, symm=False, empty=False, sparse=False), [], n=ctx.int(1, 2), limit=6)
            e = Ent(nm, dims, a.size, a.size, shapestruct=(a, a), symm=True)
            e.ssform = '(a,a)'
        elif k < 0.9:
            n = ctx.int(2, 3)
            e = Ent(nm, dims, struct=Spec([Ent('s', gen_dims(ctx, empty=False), n, n, symm=True), Ent('v', [], 2, 1)]))
        else:
            e = Ent(nm, dims, ctx.int(1, 3), ctx.int(1, 3))
        ents.append(e)
    ctx.r.shuffle(ents)
    s = Spec(ents)
    if s.size > 250:
        return gen(ctx, 1)
    return s


def symm_leaves(spec):
    return [(c, e) for c, e in spec.leaves if e.symm]


def dense_of(e, flat):
    """Dense symmetric matrix from the stored elements, by first principles."""
    m = np.zeros((e.nr, e.nc))
    for v, (r, c) in zip(flat, e.stored):
        m[r, c] = m[c, r] = v
    return m


def elem(ctx, n):
    k = ctx.r.random()
    if k < 0.5:
        return ctx.int(-n, n - 1)
    if k < 0.65:
        return slice(None)
    if k < 0.8:
        a = ctx.int(0, n - 1)
        return slice(a, ctx.int(a + 1, n))
    l = list(range(n))
    ctx.r.shuffle(l)
    return l[:ctx.int(1, n)]


def npx(m, *idx):
    """NumPy reading of the element index of CasADi (single index is column-major)."""
    ix = [[i] if isinstance(i, (int, np.integer)) else i for i in idx]
    if len(ix) == 1:
        return m.reshape(-1, 1, order='F')[ix[0]]
    return m[ix[0]][:, ix[1]]


def access(ctx):
    spec = gen(ctx)
    leaves = symm_leaves(spec)
    ctx.log('declare %s', spec.describe())
    # storage: one number for each structurally present pair
    for canon, e in leaves:
        pairs = {(min(rc), max(rc)) for rc in e.orig}
        ctx.check(e.unit == len(pairs), 'model and definition disagree')     # self-check of the oracle
    kind = ctx.pick(['DM', 'DM', 'DM', 'SX', 'MX', 'mutMX', 'symSX', 'symMX'])
    o = build(ctx, spec, ctx.pick(['struct', 'symSX', 'symMX']))
    ctx.check(int(o.size) == spec.size, 'size of a struct with symmetric entries', got=o.size, want=spec.size, decl=spec.describe())
    vals = fresh_values(ctx, spec.size)
    if kind == 'DM' and ctx.chance(0.15):
        vals[ctx.int(0, spec.size - 1)] = ctx.pick([np.inf, -np.inf])
    at = vals.copy()
    if kind == 'DM':
        v, sym = o(cs.DM(vals)), None
    elif kind in ('SX', 'MX'):
        t = getattr(cs, kind)
        sym = t.sym('w', spec.size)
        v = o(t(sym))
    elif kind == 'mutMX':
        sym = cs.MX.sym('w', spec.size)
        v = ce.struct_MX_mutable(o, data=cs.MX(sym))
    else:
        v = build(ctx, spec, kind)
        sym = v.cat
    num = (lambda x: x) if sym is None else (lambda x: evaluate(x, sym, at))

    def reads():
        canon, e = ctx.pick(leaves)
        want = dense_of(e, vals[spec.map[canon]])
        got = cs.DM(num(v[canon]))
        ctx.check(got.shape == want.shape and np.array_equal(got.full(), want), 'symmetric entry %s' % (canon,), got=got, want=want, kind=kind, decl=spec.describe(), history=ctx.trace)
        for _ in range(3):
            idx = (elem(ctx, e.nr), elem(ctx, e.nc)) if ctx.chance(0.7) else (elem(ctx, e.nr * e.nc),)
            w = npx(want, *idx)
            g = cs.DM(num(v[canon + idx]))
            ctx.check(g.shape == w.shape and np.array_equal(g.full(), w), 'symmetric entry %s, elements %s' % (canon, idx), got=g, want=w, kind=kind, decl=spec.describe(), history=ctx.trace)
            if e.shapestruct is None:
                ctx.event('element-read', kind, e.describe(), len(idx))
        i, j = ctx.int(0, e.nr - 1), ctx.int(0, e.nr - 1)
        a, b = cs.DM(num(v[canon + (i, j)])), cs.DM(num(v[canon + (j, i)]))
        ctx.check(np.array_equal(a.full(), b.full()), 'elements (%d,%d) and (%d,%d) of %s differ' % (i, j, j, i, canon), a=a, b=b, kind=kind)
        ctx.event('read', kind, e.describe(), spec.describe())

    for _ in range(3):
        reads()
    if kind in ('symSX', 'symMX'):
        return
    cnt = Counter()
    for _ in range(5):
        canon, e = ctx.pick(leaves)
        old = dense_of(e, vals[spec.map[canon]])
        present = e.stored
        k = ctx.r.random()
        if k < 0.3:     # the whole matrix, symmetric payload of the declared pattern
            x = np.zeros(old.shape)
            for r, c in present:
                x[r, c] = x[c, r] = cnt.arr()
            p = cs.DM(e.sparsity(), [x[r, c] for c in range(e.nc) for r in range(e.nr) if e.sparsity().has_nz(r, c)])
            new = x
            v[canon] = p if sym is None or ctx.chance(0.5) else type(sym)(p)
            what = 'whole'
        elif k < 0.45:
            x = cnt.arr()
            if ctx.chance(0.15):
                x = 0.
                v[canon] = cs.DM(1, 1)      # a structural zero
            else:
                v[canon] = x
            new = np.where(old_mask(e), x, 0.)
            what = 'scalar'
        elif k < 0.8 and present:  # one element, on either side of the diagonal
            r, c = ctx.pick(present)
            if ctx.chance(0.5):
                r, c = c, r
            x = cnt.arr()
            if ctx.chance(0.7):
                idx = (r, c) if ctx.chance(0.7) else (r - e.nr, c - e.nc)
            else:
                idx = (r + c * e.nr,)
            v[canon + idx] = x if sym is None or ctx.chance(0.5) else type(sym)(cs.DM(x))
            new = old.copy()
            new[r, c] = new[c, r] = x
            what = 'element %s' % (idx,)
        elif e.dense:
            r = ctx.int(0, e.nr - 1)
            x = cnt.arr(e.nr)
            if ctx.chance(0.5):
                v[canon + (r, slice(None))] = cs.DM(x).T
                what = 'row %d' % r
            else:
                v[canon + (slice(None), r)] = cs.DM(x)
                what = 'column %d' % r
            new = old.copy()
            new[r, :] = x
            new[:, r] = x
        else:
            continue
        ctx.log('%s write %s of %s', kind, what, canon)
        for p, (r, c) in zip(spec.map[canon], e.stored):
            vals[p] = new[r, c]
        flat = cs.DM(num(v.cat)).full()[:, 0]
        ctx.check(np.array_equal(flat, vals), 'flat vector after writing %s of %s' % (what, canon), got=flat, want=vals, kind=kind, decl=spec.describe(), history=ctx.trace)
        ctx.event('write', kind, what.split()[0], e.describe())
        reads()


def old_mask(e):
    m = np.zeros((e.nr, e.nc), bool)
    for r, c in e.stored:
        m[r, c] = m[c, r] = True
    return m


WORKLOADS = {'access': (access, 900, 18000)}
REQUIRED = {'read': 2500, 'write': 1500, 'element-read': 4000}
