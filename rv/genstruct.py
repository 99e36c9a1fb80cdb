"""Generation of struct declarations, power indices and payloads, and comparison helpers."""
import casadi as cs
import numpy as np

import casadi_extras as ce

from .core import Skip
from .refstruct import Deleg, Ent, Fn, NESTED, Pay, Rep, Spec

NAMES = ['x', 'y', 'z', 'u', 'p', 'q', 'a', 'b', 't', 'x0', 'x_0', 'xx', 'size', 'i', 'f', 'cat', 'A b', 'struct', 'K', 'eq',
         'V', 'nz', '0', '-1', 'T', 'a_rather_long_name_of_an_entry_of_a_struct_which_is_used_nowhere_else', 'a,b', 'x[0]', u'\u00fc']


# --- declarations ---------------------------------------------------------
def gen_pattern(ctx, nr, nc, symm=False):
    """A sparsity pattern as a list of (r, c), never empty unless the matrix is."""
    full = [(r, c) for c in range(nc) for r in range(nr)]
    mode = ctx.pick(['diag', 'upper', 'lower', 'random', 'random', 'random', 'row', 'single'])
    if mode == 'diag':
        nz = [rc for rc in full if rc[0] == rc[1]]
    elif mode == 'upper':
        nz = [rc for rc in full if rc[0] <= rc[1]]
    elif mode == 'lower':
        nz = [rc for rc in full if rc[0] >= rc[1]]
    elif mode == 'row':
        k = ctx.int(0, nr - 1)
        nz = [rc for rc in full if rc[0] == k]
    elif mode == 'single':
        nz = [ctx.pick(full)]
    else:
        nz = [rc for rc in full if ctx.chance(0.5)] or [ctx.pick(full)]
    if symm:
        nz = sorted(set(nz) | {(c, r) for r, c in nz}, key=lambda rc: (rc[1], rc[0]))
    return nz or [ctx.pick(full)]


def gen_dims(ctx, big=False, empty=True):
    k = ctx.r.random()
    top = 5 if big else 3
    if k < 0.45:
        return []
    if k < 0.78:
        if empty and ctx.chance(0.04):
            return [0]
        return [ctx.int(1, top) if ctx.chance(0.96) else ctx.int(9, 13)]
    if k < 0.95:
        return [ctx.int(1, top), ctx.int(1, 3)]
    return [ctx.int(1, 2), ctx.int(1, 3), ctx.int(1, 2)]


def gen_ent(ctx, name, depth, opts, pool):
    dims = gen_dims(ctx, empty=opts.get('empty', True)) if opts.get('dims', True) else []
    k = ctx.r.random()
    if depth > 0 and opts.get('nested', True) and k < 0.28:
        if opts.get('empty', True) and ctx.chance(0.06):
            # a struct without elements
            sub = Spec([]) if ctx.chance(0.6) else Spec([Ent(ctx.pick(NAMES), [0])])
        elif pool and ctx.chance(0.35):
            sub = ctx.pick(pool)
        else:
            sub = gen_spec(ctx, depth - 1, opts, pool, n=ctx.int(1, 3))
            pool.append(sub)
        if ctx.chance(0.05):
            # many levels
            for _ in range(ctx.int(2, 7)):
                nm = ctx.r.sample(NAMES, 2)
                sub = Spec([Ent(nm[0], [ctx.int(1, 2)] if ctx.chance(0.15) else [], struct=sub)] + [Ent(nm[1])] * ctx.chance(0.3))
        return Ent(name, dims, struct=sub)
    if opts.get('shapestruct', True) and k < 0.4:
        o = dict(opts, shapestruct=False, symm=False, empty=False, small=True)
        a = ctx.pick(pool) if pool and ctx.chance(0.5) else gen_spec(ctx, 0, o, [], n=ctx.int(1, 3))
        form = ctx.pick(['a', '(a,)', '(a,b)', '(a,a)', '(a,n)', '(n,a)'])
        if form in ('a', '(a,)'):
            ss = (a, 1)
        elif form == '(a,a)':
            ss = (a, a)
        elif form == '(a,b)':
            ss = (a, gen_spec(ctx, 0, o, [], n=ctx.int(1, 2)))
        elif form == '(a,n)':
            ss = (a, ctx.int(1, 3))
        else:
            ss = (ctx.int(1, 3), a)
        n = [s if isinstance(s, int) else s.size for s in ss]
        if n[0] * n[1] <= 150 and n[0] > 0 and n[1] > 0:
            symm = form == '(a,a)' and opts.get('symm', True) and ctx.chance(0.4)
            nz = gen_pattern(ctx, n[0], n[1], symm) if opts.get('sparse', True) and ctx.chance(0.25) else None
            e = Ent(name, dims, n[0], n[1], nz=nz, symm=symm, shapestruct=ss)
            e.ssform = form
            return e
    if opts.get('symm', True) and k < 0.55:
        n = ctx.int(1, 4)
        nz = gen_pattern(ctx, n, n, True) if opts.get('sparse', True) and ctx.chance(0.35) else None
        return Ent(name, dims, n, n, nz=nz, symm=True)
    form = ctx.pick(['scalar', 'vec', 'vec', 'mat', 'mat', 'row', 'sparse', 'sparse'])
    if form == 'sparse' and not opts.get('sparse', True):
        form = 'mat'
    if form == 'scalar':
        return Ent(name, dims)
    if form == 'vec':
        return Ent(name, dims, 0 if opts.get('empty', True) and ctx.chance(0.03) else ctx.int(1, 4) if ctx.chance(0.96) else ctx.int(5, 15), 1)
    if form == 'row':
        return Ent(name, dims, 1, ctx.int(1, 4))
    nr, nc = (ctx.int(1, 4), ctx.int(1, 4)) if ctx.chance(0.95) else (ctx.int(1, 10), ctx.int(1, 10))
    return Ent(name, dims, nr, nc, nz=gen_pattern(ctx, nr, nc) if form == 'sparse' else None)


def gen_large(ctx, opts):
    """A declaration of more than 256 elements."""
    names = ctx.r.sample(NAMES, 3)
    form = ctx.pick(['vec', 'mat', 'repeat', 'repeat2', 'nested'] if opts.get('dims', True) else ['vec', 'mat'])
    if form == 'vec':
        e = Ent(names[0], [], ctx.int(257, 420), 1)
    elif form == 'mat':
        e = Ent(names[0], [], ctx.int(16, 20), ctx.int(17, 20))
    elif form == 'repeat':
        e = Ent(names[0], [ctx.int(129, 200)], 2, 1)
    elif form == 'repeat2':
        e = Ent(names[0], [ctx.int(13, 20), ctx.int(10, 12)], 1, 2)
    else:
        e = Ent(names[0], [ctx.int(87, 120)], struct=Spec([Ent('x', [], 2, 1), Ent('y')]))
    ents = [Ent(names[1], [], ctx.int(1, 3), 1), e, Ent(names[2], [2] if opts.get('dims', True) else [])]
    ctx.r.shuffle(ents)
    return Spec(ents)


def gen_spec(ctx, depth=2, opts=None, pool=None, n=None, limit=220):
    opts = opts or {}
    if n is None and limit >= 40 and ctx.chance(0.02):
        return gen_large(ctx, opts)
    pool = [] if pool is None else pool
    for _ in range(12):
        n_ = n if n is not None else ctx.pick([1, 2, 2, 3, 3, 4, 5]) if ctx.chance(0.96) else ctx.int(7, 14)
        names = ctx.r.sample(NAMES, n_)
        ents = [gen_ent(ctx, nm, depth, opts, pool) for nm in names]
        groups, order_kw = None, None
        k = ctx.r.random()
        if opts.get('group', True) and n_ >= 2 and k < 0.35:
            groups, i = [], 0
            while i < n_:
                m = ctx.int(1, min(3, n_ - i))
                groups.append(tuple(names[i:i + m]) if m > 1 or ctx.chance(0.2) else names[i])
                i += m
        elif opts.get('order', True) and n_ >= 2 and k < 0.5:
            order_kw = list(names)
            ctx.r.shuffle(order_kw)
            if ctx.chance(0.3) and n_ >= 3:
                order_kw = [tuple(order_kw[:2])] + order_kw[2:]
        s = Spec(ents, groups, order_kw)
        if 0 < s.size <= limit:
            return s
    raise Skip()


def build_entry(ctx, e, expr=None):
    kw = {}
    npint = (lambda k: np_int(ctx, k)) if ctx.chance(0.1) else (lambda k: k)
    if expr is not None:
        kw['expr'] = expr
        return ce.entry(e.name, **kw)
    if e.dims:
        kw['repeat'] = npint(e.dims[0]) if len(e.dims) == 1 and ctx.chance(0.6) else [npint(d) for d in e.dims]
    if not e.prim:
        kw['struct'] = build(ctx, e.struct, any_kind=True)
    elif e.shapestruct is not None:
        ss = tuple(s if isinstance(s, int) else build(ctx, s, any_kind=True) for s in e.shapestruct)
        form = getattr(e, 'ssform', '')
        kw['shapestruct'] = ss[0] if form == 'a' else (ss[:1] if form == '(a,)' and not e.dense else ss)
        if not e.dense:
            kw['shape'] = e.sparsity()
    elif not e.dense or ctx.chance(0.15):
        kw['shape'] = e.sparsity()
    elif (e.nr, e.nc) == (1, 1):
        if ctx.chance(0.4):
            kw['shape'] = ctx.pick([1, (1,), (1, 1), [1, 1]])
    elif e.nc == 1 and ctx.chance(0.7):
        kw['shape'] = ctx.pick([e.nr, (e.nr,), [e.nr]]) if ctx.chance(0.8) else npint(e.nr)
    else:
        kw['shape'] = ctx.pick([(e.nr, e.nc), [e.nr, e.nc]])
    if e.symm:
        kw['type'] = 'symm'
    if not kw and ctx.chance(0.3):
        return e.name
    return ce.entry(e.name, **kw)


def build_args(ctx, spec, exprs=None):
    made = {e.name: build_entry(ctx, e, None if exprs is None else exprs[e.name]) for e in spec.ents}
    args = [tuple(made[n] for n in g) if isinstance(g, tuple) else made[g] for g in spec.groups]
    # a bare name inside a tuple and a bare string entry are both legal
    kw = {} if spec.order_kw is None else {'order': list(spec.order_kw)}
    return args, kw


def build(ctx, spec, kind='struct', any_kind=False):
    """The struct object declared by spec.  Nested uses may get any kind of struct object."""
    key = kind
    if any_kind and key in spec.obj and ctx.chance(0.7):
        return spec.obj[key]
    args, kw = build_args(ctx, spec)
    ctor = {'struct': ce.struct, 'symSX': ce.struct_symSX, 'symMX': ce.struct_symMX}[kind]
    o = ctor(args, **kw)
    spec.obj[key] = o
    if any_kind:
        k = ctx.r.random()
        if k < 0.1:
            return o.struct
        if k < 0.2:
            return o(0)
    return o


def fresh_values(ctx, n, digits=True):
    """Pairwise different numbers, so that any mix-up of positions is visible; sometimes with all 17 digits."""
    base = np.arange(n) * 1.0 + ctx.r.choice([0.25, 100.5, -37.75])
    if digits and ctx.chance(0.3):
        base = (base + 1 / 30.) * 10.0 ** ctx.int(-9, 9)
    ctx.np.shuffle(base)
    return base


SPECIAL = [np.nan, np.inf, -np.inf, 1e300, -1e-300, 5e-324, -0., 2. ** 53 + 2]


def same(a, b):
    return np.array_equal(a, b, equal_nan=True)


def spice(ctx, a):
    """A few of the numbers replaced by NaN, infinities, very large or small ones."""
    for _ in range(ctx.int(1, 3)):
        a.flat[ctx.int(0, a.size - 1)] = ctx.pick(SPECIAL)
    return a


class Counter(object):
    """Source of numbers never used before in the case (with ctx given, sometimes special ones)."""
    def __init__(self, start=1000, ctx=None):
        self.k, self.ctx = start, ctx

    def arr(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        a = self.k + np.arange(n) + (1 / 30. if self.k % 3 == 0 else 0.5)
        self.k += n
        if self.ctx is not None and n and self.ctx.chance(0.1):
            spice(self.ctx, a)
        return a.reshape(shape) if shape else float(a[0])


# --- power indices --------------------------------------------------------
HCAT = Fn('horzcat', lambda l: cs.horzcat(*l))
VCAT = Fn('vertcat', lambda l: cs.vertcat(*l))
VECCAT = Fn('veccat', lambda l: cs.veccat(*l))
IDENT = Fn('identity', lambda l: l)
FIRST = Fn('first', lambda l: l[0])
LAST = Fn('last', lambda l: l[-1])
REV = Fn('reverse', lambda l: l[::-1])
TRANS = Fn('transpose', lambda m: m.T)
VEC = Fn('vec', lambda m: cs.vec(m))
BLOCK = Fn('blockcat', lambda l: cs.blockcat(l))


def np_int(ctx, i, unsigned=True):
    types = [np.int64, np.int64, np.int32, np.int16, np.int8] + ([np.uint8, np.uint64] if unsigned and i >= 0 else [])
    return ctx.pick([t for t in types if np.iinfo(t).min <= i <= np.iinfo(t).max])(i)


def gen_repeat_index(ctx, n):
    k = ctx.r.random()
    if n == 0:
        return slice(None)
    if k < 0.4:
        i = ctx.int(-n, n - 1)
        return np_int(ctx, i) if ctx.chance(0.1) else i
    if k < 0.75:
        m = ctx.r.random()
        if m < 0.35:
            return slice(None)
        if m < 0.5:
            return slice(ctx.int(-n, n), None)
        if m < 0.65:
            return slice(None, ctx.int(-n, n + 1))
        if m < 0.8:
            return slice(None, None, ctx.pick([-1, 2, -2, 1]))
        return slice(ctx.int(-n - 1, n + 1), ctx.int(-n - 1, n + 1), ctx.pick([None, 1, 2, -1]))
    l = [ctx.int(-n, n - 1) for _ in range(ctx.int(1, n + 1))]
    return [np_int(ctx, i) for i in l] if ctx.chance(0.05) else l


def gen_elem(ctx, n, distinct=True):
    """Index along one matrix direction of length n."""
    k = ctx.r.random()
    if n == 0:
        return slice(None)
    if k < 0.4:
        i = ctx.int(-n, n - 1)
        return i
    if k < 0.75:
        m = ctx.r.random()
        if m < 0.4:
            return slice(None)
        a = ctx.int(0, n - 1)
        b = ctx.int(a + 1, n)
        return slice(a, b) if m < 0.8 else slice(a, None)
    idx = list(range(n))
    ctx.r.shuffle(idx)
    return idx[:ctx.int(1, n)]


def simple_flat(ctx, spec, column_only=False):
    """A power index of a shapestruct usable for index[...]/indexf[...]: leaves dense."""
    cands = [e for e in spec.ents if e.prim and e.dense and not e.symm and e.unit > 0]
    if column_only:
        cands = [e for e in cands if e.nc == 1]
    if not cands:
        return None
    e = ctx.pick(cands)
    p = [e.name]
    for d in e.dims:
        if d == 0:
            return None
        p.append(ctx.int(0, d - 1))
    return tuple(p)


def gen_struct_extra(ctx, s):
    """Row/column index by names of a shapestruct; None if impossible."""
    ok = [e for e in s.ents if flat_ok(e)]
    if not ok:
        return None
    k = ctx.r.random()
    if k < 0.45:
        return ctx.pick(ok).name
    if k < 0.65:
        names = [e.name for e in ok]
        ctx.r.shuffle(names)
        return names[:ctx.int(1, len(names))]
    p = simple_flat(ctx, s, column_only=k >= 0.85)
    if p is None:
        return ctx.pick(ok).name
    return Deleg('f' if k < 0.85 else 'i', p)


def flat_ok(e):
    """.f of the whole entry is defined only if all its matrices are dense."""
    if e.unit == 0 or 0 in e.dims:
        return False
    if not e.prim:
        return True
    return e.dense and not (e.symm and e.nr > 1)


def gen_extra(ctx, e, setting=False):
    """Element indices for one matrix."""
    k = ctx.r.random()
    if e.nr == 0 or e.nc == 0 or k < 0.35:
        if k < 0.05:
            return (NESTED,)
        return ()
    if not setting and k < 0.42:
        return (ctx.pick([TRANS, VEC, IDENT]),) + gen_extra(ctx, e, setting)
    if e.shapestruct is not None and e.nc == 1 and e.dense and not isinstance(e.shapestruct[0], int) and ctx.chance(0.25):
        p = simple_flat(ctx, e.shapestruct[0])      # a single delayed index keeps the shape of what it selects
        if p is not None:
            return (Deleg(ctx.pick(['i', 'i', 'f']), p),)
    if e.shapestruct is not None and k < 0.85:
        out = []
        for s in e.shapestruct:
            x = None
            if not isinstance(s, int) and ctx.chance(0.8):
                x = gen_struct_extra(ctx, s)
            n = e.nr if not out else e.nc
            out.append(gen_elem(ctx, n) if x is None else x)
        if e.nc == 1 and not isinstance(out[0], Deleg) and ctx.chance(0.5):
            return (out[0],)
        return tuple(out)
    if k < 0.6:
        return (gen_elem(ctx, e.nr * e.nc),)
    return (gen_elem(ctx, e.nr), gen_elem(ctx, e.nc))


def gen_power(ctx, spec, setting=False):
    """A valid power index of spec (model form)."""
    pw = _gen_struct(ctx, spec, 2, setting)
    return tuple(pw)


def _gen_struct(ctx, spec, depth, setting):
    k = ctx.r.random()
    if k < 0.62:
        e = ctx.pick(spec.ents)
        return [e.name] + _gen_entry(ctx, e, e.dims, setting)
    if not setting and k < 0.68:
        return [ctx.pick([IDENT, REV])] + _gen_multi(ctx, spec, as_list=True)
    return _gen_multi(ctx, spec)


def _common(ctx, ents, setting):
    """Further index valid for several entries at once."""
    if all(e.dims and e.dims[0] > 0 for e in ents) and ctx.chance(0.6):
        n = min(e.dims[0] for e in ents)
        return [ctx.pick([0, ctx.int(0, n - 1), -1, slice(None), slice(None), slice(0, n), slice(1, None), [ctx.int(0, n - 1)]])]
    if all(not e.dims and e.prim and e.nr > 0 and e.nc > 0 for e in ents) and ctx.chance(0.4) and not setting:
        return [ctx.pick([0, slice(None), -1])]
    return []


def _gen_multi(ctx, spec, as_list=False):
    k = ctx.r.random()
    names = list(spec.keys)
    if as_list or k < 0.3:
        ctx.r.shuffle(names)
        names = names[:ctx.int(1, len(names))]
        if ctx.chance(0.15):
            names.append(ctx.pick(names))
        return [names] + _common(ctx, [spec.d[n] for n in names], True)
    if k < 0.5:
        return [Ellipsis] + _common(ctx, spec.ents, True)
    if k < 0.65:
        return [{}] + _common(ctx, spec.ents, True)
    if k < 0.85:
        ctx.r.shuffle(names)
        names = names[:ctx.int(1, len(names))]
        return [set(names)] + _common(ctx, [spec.d[n] for n in names], True)
    return [NESTED]


def _gen_entry(ctx, e, dims, setting):
    if not dims:
        if e.prim:
            return list(gen_extra(ctx, e, setting))
        if ctx.chance(0.25):
            return []
        if ctx.chance(0.1):
            return [NESTED]
        if not e.struct.ents:
            return [] if setting else ctx.pick([[], [], [Ellipsis], [{}]])
        return _gen_struct(ctx, e.struct, 1, setting)
    k = ctx.r.random()
    if k < 0.15:
        return []
    if k < 0.2:
        return [NESTED]
    if k < 0.33 and not (setting and has_symm(e)):
        # callable gathering the repeats
        if len(dims) == 1 and dims[0] > 0:
            tail = _gen_entry(ctx, e, [], False) if e.prim else []
            if setting:
                tail = []
            same = not any(isinstance(t, (Deleg, Fn)) for t in tail)
            if same:
                return [ctx.pick([HCAT, VCAT, VECCAT, FIRST, LAST] + ([] if setting else [REV, IDENT])), slice(None)] + tail
        if len(dims) == 2 and min(dims) > 0 and ctx.chance(0.5):
            return [BLOCK, slice(None), slice(None)]
    i = gen_repeat_index(ctx, dims[0])
    return [i] + _gen_entry(ctx, e, dims[1:], setting)


def has_symm(e):
    return e.symm if e.prim else any(has_symm(x) for x in e.struct.ents)


# --- payloads ---------------------------------------------------------------
def flat_result(x):
    """Matrices of a nested result in a fixed order."""
    if isinstance(x, dict):
        return sum((flat_result(x[k]) for k in sorted(x)), [])
    if isinstance(x, (list, tuple)):
        return sum((flat_result(i) for i in x), [])
    return [x]


def overwrite(x):
    """Modify every matrix of a nested result in place; True if there was one."""
    done = False
    for m in flat_result(x):
        if isinstance(m, (cs.DM, cs.SX, cs.MX)) and m.nnz():
            m.nz[0] = -12345.5
            done = True
    return done


def payload_for(ctx, spec, pw, cnt, mtype='DM', wrap=None):
    """Payload for an assignment to spec[pw]. Under a callable a plain list of numbers would be distributed over the repeats."""
    fn = any(isinstance(p, Fn) for p in pw)
    return gen_payload(ctx, spec.select(pw, raw=fn), cnt, mtype, wrap, nolist=fn)


def gen_payload(ctx, sel, cnt, mtype='DM', wrap=None, nolist=False):
    """Payload (model form) for a selection sel (nested positions) - always acceptable."""
    if isinstance(sel, dict):
        if ctx.chance(0.75) and sel:
            keys = list(sel)
            if ctx.chance(0.25):
                ctx.r.shuffle(keys)
                keys = keys[:ctx.int(1, len(keys))]
            return {k: gen_payload(ctx, sel[k], cnt, mtype, wrap, nolist) for k in keys}
        return leaf_payload(ctx, None, cnt, mtype, wrap, nolist)
    if isinstance(sel, list):
        k = ctx.r.random()
        shapes = {m.shape for m in flat_result(sel)}
        if k < 0.6 and not (len(sel) == 0):
            l = [gen_payload(ctx, s, cnt, mtype, wrap, nolist) for s in sel]
            return tuple(l) if ctx.chance(0.2) else l
        if k < 0.8 and isinstance(sel[0] if sel else None, (list, dict)) and flat_result(sel) and all(alike(sel[0], o) for o in sel[1:]):
            return Rep(gen_payload(ctx, sel[0], cnt, mtype, wrap, nolist))
        inner = None
        if len(shapes) == 1 and flat_result(sel) and not has_dict(sel):
            m = flat_result(sel)[0]
            if ctx.chance(0.6) and m.shape != (1, 1) and m.numel() > 0:
                inner = leaf_payload(ctx, m if all(same_pos_pattern(m, o) for o in flat_result(sel)) else None,
                                     cnt, mtype, wrap, nolist=True)
        if inner is None:
            inner = leaf_payload(ctx, None, cnt, mtype, wrap, nolist)
        return Rep(inner) if k < 0.85 and sel else inner
    return leaf_payload(ctx, sel, cnt, mtype, wrap, nolist)


def alike(a, b):
    """Selections which accept the same payloads."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(alike, a, b))
    return not isinstance(b, (dict, list)) and same_pos_pattern(a, b)


def has_dict(x):
    return isinstance(x, dict) or (isinstance(x, list) and any(has_dict(i) for i in x))


def same_pos_pattern(a, b):
    """Same pattern and the same coincidences between positions (mirrored elements)."""
    if a.sparsity() != b.sparsity():
        return False
    pa, pb = list(a.nonzeros()), list(b.nonzeros())
    return [pa.index(x) for x in pa] == [pb.index(x) for x in pb]


def leaf_payload(ctx, m, cnt, mtype, wrap, nolist=False):
    """m is the matrix of positions addressed (None: only a scalar fits everywhere)."""
    if m is None or m.numel() == 0 or ctx.chance(0.25):
        if ctx.chance(0.06):
            # a structural zero
            return Pay(cs.DM(1, 1) if wrap is None else wrap(cs.DM(1, 1)), 0.)
        v = cnt.arr()
        obj = v
        if wrap is not None and ctx.chance(0.5):
            obj = wrap(cs.DM(v))
        elif ctx.chance(0.3):
            obj = ctx.pick([cs.DM(v), np.float64(v)])
        return Pay(obj, v)
    pos = [int(p) for p in m.nonzeros()]
    dup = len(set(pos)) < len(pos)
    if dup or not m.is_dense():
        # mirrored elements get the same value; sparse targets get a payload of the same pattern
        val = {p: cnt.arr() for p in set(pos)}
        num = cs.DM(m.sparsity(), [val[p] for p in pos])
    else:
        num = cs.DM(cnt.arr(*m.shape))
    obj = num
    if wrap is not None and ctx.chance(0.6):
        obj = wrap(num)
    elif num.is_dense():
        k = ctx.r.random()
        if k < 0.25:
            obj = num.full()
        elif k < 0.4 and num.shape[1] == 1 and not nolist:
            obj = [float(x) for x in num.nonzeros()]
        elif k < 0.5 and num.shape[1] == 1:
            obj = num.full()[:, 0]
    return Pay(obj, num)


# --- comparison -------------------------------------------------------------
def compare(ctx, got, want, what, tol=0.0):
    """got: nested API result of numbers, want: nested model result."""
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict) and set(got) == set(want), what + ': keys of the result', got=got, want=sorted(want))
        for k in want:
            compare(ctx, got[k], want[k], what + '[%r]' % k, tol)
        return
    if isinstance(want, (list, tuple)):
        ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want), what + ': list expected',
                  got=got, want_len=len(want))
        for j, (g, w) in enumerate(zip(got, want)):
            compare(ctx, g, w, what + '[%d]' % j, tol)
        return
    ctx.check(not isinstance(got, (list, tuple, dict)), what + ': a matrix expected', got=got)
    g, w = cs.DM(got), cs.DM(want)
    ctx.check(g.shape == w.shape, what + ': shape', got=g.shape, want=w.shape)
    gd, wd = g.full(), w.full()
    ok = np.array_equal(gd, wd, equal_nan=True) if tol == 0 else np.allclose(gd, wd, rtol=tol, atol=tol, equal_nan=True)
    ctx.check(ok, what + ': values', got=gd.tolist(), want=wd.tolist())


def evaluate(nested, sym, val):
    """Evaluate a nested symbolic result at sym=val."""
    flat = flat_result(nested)
    if not flat:
        return nested
    f = cs.Function('f', [sym], [s if isinstance(s, (cs.SX, cs.MX)) else type(sym)(s) for s in flat])
    out = f.call([cs.DM(val)])
    it = iter(out)

    def back(x):
        if isinstance(x, dict):
            return dict(zip(sorted(x), [back(x[k]) for k in sorted(x)]))
        if isinstance(x, (list, tuple)):
            return [back(i) for i in x]
        return next(it)
    return back(nested)


def shape_of(nested):
    """Signature of a nested result for coverage counting."""
    if isinstance(nested, dict):
        return 'd(' + ','.join(shape_of(v) for v in nested.values()) + ')'
    if isinstance(nested, (list, tuple)):
        return 'l%d(' % len(nested) + (shape_of(nested[0]) if nested else '') + ')'
    return '%dx%d/%d' % (nested.shape[0], nested.shape[1], nested.nnz())


def power_kind(power):
    out = []
    for p in power:
        if isinstance(p, str):
            out.append('name')
        elif p is Ellipsis:
            out.append('...')
        elif isinstance(p, (int, np.integer)):
            out.append('-int' if p < 0 else 'int')
        elif isinstance(p, slice):
            out.append('slice' if p != slice(None) else ':')
        elif isinstance(p, list):
            out.append('names' if p and isinstance(p[0], str) else 'ints')
        elif isinstance(p, Fn):
            out.append(p.name)
        else:
            out.append(type(p).__name__)
    return '/'.join(out)
