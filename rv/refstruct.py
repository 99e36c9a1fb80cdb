"""Independent model of structs: layout, selection by power index, assignment.

The model never looks at the implementation's maps.  A declaration is a Spec;
a matrix of *flat positions plus one* (0 = structural zero) is the model of
what a selection addresses; indexing within one matrix is left to CasADi.
"""
import itertools

import casadi as cs
import numpy as np


class Reject(Exception):
    """The model says that the operation must be rejected."""


class Ent(object):
    def __init__(self, name, dims=(), nr=1, nc=1, nz=None, symm=False, struct=None, shapestruct=None):
        self.name, self.dims = name, list(dims)
        self.nr, self.nc = nr, nc
        self.symm, self.struct, self.shapestruct = symm, struct, shapestruct
        full = [(r, c) for c in range(nc) for r in range(nr)]
        self.orig = full if nz is None else sorted(nz, key=lambda rc: (rc[1], rc[0]))
        self.dense = len(self.orig) == len(full)
        self.stored = [rc for rc in self.orig if rc[0] <= rc[1]] if symm else self.orig

    @property
    def prim(self):
        return self.struct is None

    @property
    def unit(self):
        """Number of flat positions of one repeat."""
        return len(self.stored) if self.prim else self.struct.size

    def sparsity(self, pattern=None):
        nz = self.orig if pattern is None else pattern
        return cs.Sparsity.triplet(self.nr, self.nc, [r for r, c in nz], [c for r, c in nz])

    def describe(self):
        if self.prim:
            d = '%dx%d' % (self.nr, self.nc)
            if not self.dense:
                d += '(nnz %d)' % len(self.orig)
            if self.symm:
                d += ' symm'
            if self.shapestruct:
                d += ' shapestruct(%s)' % ', '.join(str(s) if isinstance(s, int) else s.describe() for s in self.shapestruct)
        else:
            d = self.struct.describe()
        return '%s%s: %s' % (self.name, self.dims or '', d)


class Spec(object):
    def __init__(self, ents, order=None, order_kw=None):
        """order: list of names or tuples of names (grouping); order_kw: the order= argument."""
        self.ents = list(ents)
        self.d = {e.name: e for e in self.ents}
        self.groups = list(order) if order is not None else [e.name for e in self.ents]
        self.order_kw = order_kw
        seq = self.groups if order_kw is None else order_kw
        self.seq = seq
        self.keys = [n for g in seq for n in (g if isinstance(g, tuple) else (g,))]

        self.map = {}           # canonical index of a primitive -> flat positions in stored order
        self.nested = {}        # canonical index of a nested struct -> flat positions
        self.leaves = []
        k = 0
        for canon in self._traverse():
            e = self.entry(canon)
            pos = list(range(k, k + e.unit))
            k += e.unit
            self.map[canon] = pos
            self.leaves.append((canon, e))
            # all struct-valued prefixes
            for j in range(1, len(canon)):
                if isinstance(canon[j], str):
                    self.nested.setdefault(canon[:j], []).extend(pos)
        self.size = k
        # repeats of nested structs without any stored element
        self.obj = {}

    def describe(self):
        return '{' + ', '.join('(' + ', '.join(self.d[n].describe() for n in g) + ')' if isinstance(g, tuple)
                               else self.d[g].describe() for g in self.groups) + '}' + \
            (' order=%s' % self.order_kw if self.order_kw is not None else '')

    def _entry_traverse(self, e):
        """One list of canonical indices per value of the first repeat index."""
        tails = [()] if e.prim else list(e.struct._traverse())
        if not e.dims:
            return [[(e.name,) + t for t in tails]]
        out = []
        for i in range(e.dims[0]):
            out.append([(e.name, i) + rest + t
                        for rest in itertools.product(*[range(d) for d in e.dims[1:]]) for t in tails])
        return out

    def _traverse(self):
        for g in self.seq:
            if isinstance(g, tuple):
                lists = [self._entry_traverse(self.d[n]) for n in g]
                for row in itertools.zip_longest(*lists):
                    for x in row:
                        if x is not None:
                            for c in x:
                                yield c
            else:
                for x in self._entry_traverse(self.d[g]):
                    for c in x:
                        yield c

    def entry(self, canon):
        names = [c for c in canon if isinstance(c, str)]
        e = self.d[names[0]]
        for n in names[1:]:
            e = e.struct.d[n]
        return e

    # --- matrices of (flat position + 1) -------------------------------
    def matrix(self, canon, e, raw=False):
        if canon in self.map:
            pos = self.map[canon]
            if not e.symm or raw:
                return cs.DM(e.sparsity(e.stored), [p + 1 for p in pos])
            at = dict(zip(e.stored, pos))
            pat = sorted(set(e.stored) | {(c, r) for r, c in e.stored}, key=lambda rc: (rc[1], rc[0]))
            return cs.DM(e.sparsity(pat), [at[(min(rc), max(rc))] + 1 for rc in pat])
        pos = self.nested.get(canon, [])
        return cs.DM(cs.Sparsity.dense(len(pos), 1), [p + 1 for p in pos])

    def flat(self, power):
        """What .f[power] must return: 0-based positions, depth-first."""
        def flatten(x):
            if isinstance(x, list):
                return sum((flatten(i) for i in x), [])
            return [int(v) - 1 for v in x.nonzeros()]
        return flatten(self.select(power, raw=True))

    # --- selection -----------------------------------------------------
    def select(self, power, raw=False):
        """Nested lists/dicts of matrices of flat positions + 1."""
        return _struct(self, self, tuple(power), (), lambda canon, e, extra: apply_extra(self.matrix(canon, e, raw), extra, e))

    def read(self, power, vals):
        """Nested lists/dicts of the numbers addressed."""
        return _struct(self, self, tuple(power), (),
                       lambda canon, e, extra: apply_extra(take(self.matrix(canon, e), vals), extra, e))


def take(m, vals):
    """Replace positions by values, keeping the pattern."""
    return cs.DM(m.sparsity(), [float(vals[int(p) - 1]) for p in m.nonzeros()])


class NestedDict(object):
    """Stands for casadi_extras.nesteddict."""
    def __repr__(self):
        return 'nesteddict'


NESTED = NestedDict()


class Deleg(object):
    """Stands for index[...] (kind 'i') or indexf[...] (kind 'f')."""
    def __init__(self, kind, power):
        self.kind, self.power = kind, tuple(power)

    def __repr__(self):
        return 'index%s[%s]' % ('f' if self.kind == 'f' else '', ', '.join(map(repr, self.power)))


class Fn(object):
    """A callable in a power index; the same callable is given to the API and to the model."""
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, x):
        return self.f(x)

    def __repr__(self):
        return self.name


def is_int(p):
    return isinstance(p, (int, np.integer)) and not isinstance(p, bool)


def norm(i, n):
    i = int(i)
    if not -n <= i < n:
        raise Reject('repeat index')
    return i + n if i < 0 else i


def _struct(top, spec, power, canon, leaf):
    if not power:
        if not canon:
            raise Reject('empty index')
        return leaf(canon, None, ())
    p, rest = power[0], power[1:]

    def go(name, rest=rest):
        if not isinstance(name, str) or name not in spec.d:
            raise Reject('name')
        e = spec.d[name]
        return _entry(top, e, e.dims, rest, canon + (name,), leaf)

    if isinstance(p, str):
        return go(p)
    if p is Ellipsis:
        return [go(k) for k in spec.keys]
    if isinstance(p, list):
        return [go(k) for k in p]
    if isinstance(p, set):
        return {k: go(k) for k in p}
    if isinstance(p, dict):
        return {k: go(k) for k in spec.keys}
    if isinstance(p, NestedDict):
        return {k: go(k, (p,)) for k in spec.keys}
    if isinstance(p, Fn):
        return p(_struct(top, spec, rest, canon, leaf))
    raise Reject('struct context')


def _entry(top, e, dims, power, canon, leaf):
    if not dims:
        if e.prim:
            return leaf(canon, e, power)
        if not power:
            return leaf(canon, e, ())
        return _struct(top, e.struct, power, canon, leaf)
    if not power:
        return [_entry(top, e, dims[1:], (), canon + (i,), leaf) for i in range(dims[0])]
    p, rest = power[0], power[1:]
    if isinstance(p, slice):
        p = list(range(*p.indices(dims[0])))
    if is_int(p):
        return _entry(top, e, dims[1:], rest, canon + (norm(p, dims[0]),), leaf)
    if isinstance(p, list):
        return [_entry(top, e, dims[1:], rest, canon + (norm(i, dims[0]),), leaf) for i in p]
    if isinstance(p, NestedDict):
        return [_entry(top, e, dims[1:], (p,), canon + (i,), leaf) for i in range(dims[0])]
    if isinstance(p, Fn):
        return p(_entry(top, e, dims, rest, canon, leaf))
    raise Reject('entry context')


def apply_extra(m, extra, e):
    if not extra:
        return m
    if isinstance(extra[0], Fn):
        return extra[0](apply_extra(m, extra[1:], e))
    if isinstance(extra[0], NestedDict):
        return m
    if len(extra) > 2:
        raise Reject('too many indices')
    a = [_delegate(x, e, k) for k, x in enumerate(extra)]
    return m[a[0]] if len(a) == 1 else m[a[0], a[1]]


def _delegate(x, e, k):
    if isinstance(x, str) or (isinstance(x, list) and x and all(isinstance(s, str) for s in x)):
        x = Deleg('f', (x,))
    if isinstance(x, Deleg):
        if e is None or e.shapestruct is None or isinstance(e.shapestruct[k], int):
            raise Reject('no shapestruct')
        s = e.shapestruct[k]
        if x.kind == 'f':
            return s.flat(x.power)
        return s.select(x.power, raw=True) - 1
    return x


# --- assignment ----------------------------------------------------------
class Rep(object):
    """Stands for repeated(payload)."""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'repeated(%r)' % (self.e,)


class Pay(object):
    """A leaf payload: the object given to the API and its numeric value (DM)."""
    def __init__(self, obj, num):
        self.obj, self.num = obj, cs.DM(num)

    def __repr__(self):
        return 'payload %s %s' % (type(self.obj).__name__, self.num)


def impl_payload(p, ce):
    if isinstance(p, Pay):
        return p.obj
    if isinstance(p, Rep):
        return ce.repeated(impl_payload(p.e, ce))
    if isinstance(p, (list, tuple)):
        return type(p)(impl_payload(i, ce) for i in p)
    if isinstance(p, dict):
        return {k: impl_payload(v, ce) for k, v in p.items()}
    return p


def impl_power(p, ce, known=None):
    """The power index as given to the API; `known` holds index objects which are used again."""
    def conv(x):
        if isinstance(x, Deleg):
            q = tuple(conv(i) for i in x.power)
            q = q[0] if len(q) == 1 else q
            made = (ce.index if x.kind == 'i' else ce.indexf)[q]
            return made if known is None else known.setdefault(repr(x), made)
        if isinstance(x, NestedDict):
            return ce.nesteddict
        return x
    q = tuple(conv(x) for x in p)
    return q[0] if len(q) == 1 else q


def assign(spec, power, payload, vals, mode='pos'):
    """New values after struct[power] = payload.

    mode 'pos': the j-th element of a list goes to the j-th selected repeat.
    mode 'abs': the element of a list is picked by the repeat index itself (known finding).
    """
    out = np.array(vals, dtype=float)

    def leaf(canon, e, extra, pay):
        if not isinstance(pay, Pay):
            raise Reject('payload %r at a leaf' % (pay,))
        _scatter(apply_extra(spec.matrix(canon, e), extra, e), pay.num, out)

    _astruct(spec, spec, tuple(power), (), leaf, payload, mode, out)
    return out


def _scatter(t, num, out):
    if num.shape == (1, 1):
        for p in t.nonzeros():
            out[int(p) - 1] = float(num)
        return
    if num.shape != t.shape:
        if num.shape == (t.shape[1], t.shape[0]) and 1 in t.shape:
            num = num.T
        else:
            raise Reject('shape')
    rows, cols = t.sparsity().get_triplet()
    dense = num.full()
    for p, r, c in zip(t.nonzeros(), rows, cols):
        out[int(p) - 1] = dense[r, c]


def _unpack(pay, j):
    if isinstance(pay, (list, tuple)):
        if j >= len(pay):
            raise Reject('payload too short')
        return pay[j]
    if isinstance(pay, Rep):
        return pay.e
    return pay


def _outer(spec, t, pay, out):
    if not isinstance(pay, Pay):
        raise Reject('payload')
    _scatter(t, pay.num, out)


def _astruct(top, spec, power, canon, leaf, pay, mode, out):
    if not power:
        return leaf(canon, None, (), pay)
    p, rest = power[0], power[1:]

    def go(name, pay, rest=rest):
        if not isinstance(name, str) or name not in spec.d:
            raise Reject('name')
        e = spec.d[name]
        _aentry(top, e, e.dims, rest, canon + (name,), leaf, pay, mode, out)

    if isinstance(p, str):
        go(p, pay)
    elif p is Ellipsis or isinstance(p, list):
        for j, k in enumerate(spec.keys if p is Ellipsis else p):
            go(k, _unpack(pay, j))
    elif isinstance(p, (dict, NestedDict)):
        r = (p,) if isinstance(p, NestedDict) else rest
        if isinstance(pay, dict):
            for k, v in pay.items():
                go(k, v, r)
        else:
            for k in spec.keys:
                go(k, pay, r)
    elif isinstance(p, set):
        if isinstance(pay, dict):
            for k, v in pay.items():
                if k in p:
                    go(k, v)
        else:
            for k in p:
                go(k, pay)
    elif isinstance(p, Fn):
        t = p(_struct(top, spec, rest, canon, lambda c, e, x: apply_extra(top.matrix(c, e, True), x, e)))
        _outer(top, t, pay, out)
    else:
        raise Reject('struct context')


def _aentry(top, e, dims, power, canon, leaf, pay, mode, out):
    if not dims:
        if e.prim or not power:
            return leaf(canon, e, power, pay)
        return _astruct(top, e.struct, power, canon, leaf, pay, mode, out)
    if not power:
        power = (slice(None),)
    p, rest = power[0], power[1:]
    if isinstance(p, slice):
        p = list(range(*p.indices(dims[0])))
    if isinstance(p, NestedDict):
        p, rest = list(range(dims[0])), (p,)
    if is_int(p):
        return _aentry(top, e, dims[1:], rest, canon + (norm(p, dims[0]),), leaf, pay, mode, out)
    if isinstance(p, list):
        for j, i in enumerate(p):
            n = norm(i, dims[0])
            if mode == 'pos':
                sub = _unpack(pay, j)
            else:
                sub = _unpack_abs(pay, int(i))
            _aentry(top, e, dims[1:], rest, canon + (n,), leaf, sub, mode, out)
        return
    if isinstance(p, Fn):
        t = p(_entry(top, e, dims, rest, canon, lambda c, e, x: apply_extra(top.matrix(c, e, True), x, e)))
        return _outer(top, t, pay, out)
    raise Reject('entry context')


def _unpack_abs(pay, i):
    if isinstance(pay, (list, tuple)):
        if i >= len(pay) or i < -len(pay):
            raise Reject('payload too short')
        return pay[i]
    return _unpack(pay, 0)
