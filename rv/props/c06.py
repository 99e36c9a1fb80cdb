"""Instantiating a struct from data is faithful."""
from collections import OrderedDict

import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import Counter, build, evaluate, fresh_values, gen_payload, gen_spec
from ..refstruct import Pay, assign, impl_payload

RULE = 'one distinct observation per (kind of argument, size, accepted or rejected)'


def rejected(ctx, o, arg, what, spec):
    try:
        r = o(arg)
    except Exception:
        ctx.event('rejected', what, spec.size)
        return
    ctx.fail('%s must be rejected' % what, got=r.cat, arg=arg, decl=spec.describe())


def vectors(ctx):
    spec = gen_spec(ctx, ctx.pick([0, 1, 2]), limit=60)
    o = build(ctx, spec, ctx.pick(['struct', 'symSX', 'symMX']))
    src = o
    if ctx.chance(0.3):
        src = o.struct if ctx.chance(0.5) else o(0)     # any struct object can be called
    ctx.log('declare %s', spec.describe())
    n = spec.size

    def dm(arg, want, what):
        v = src(arg)
        ctx.check(isinstance(v.cat, cs.DM) and v.cat.shape == (n, 1), what + ': type and shape', got=v.cat)
        ctx.check(np.array_equal(v.cat.full()[:, 0], want, equal_nan=True), what + ': values', got=v.cat, want=want, decl=spec.describe())
        ctx.check(list(v.keys()) == spec.keys and int(v.size) == n, what + ': structure', got=v.keys())
        for canon, e in spec.leaves:
            if e.unit:
                g = cs.DM(v[canon])
                w = spec.read(canon, want)
                ctx.check(np.array_equal(g.full(), w.full(), equal_nan=True), what + ': entry %s' % (canon,), got=g, want=w, decl=spec.describe())
        ctx.event('accepted', what, n)

    x = fresh_values(ctx, n)
    if ctx.chance(0.3):
        x[ctx.int(0, n - 1)] = ctx.pick([np.nan, np.inf, -np.inf, 0.])
    s = ctx.pick([0, 1, -2.5, np.float64(3.25), np.inf, 7])
    dm(s, np.full(n, float(s)), 'scalar %s' % type(s).__name__)
    dm(cs.DM(s), np.full(n, float(s)), 'scalar DM')
    dm(cs.DM(1, 1), np.zeros(n), 'structural zero')
    v = src()
    ctx.check(np.array_equal(v.cat.full()[:, 0], np.zeros(n)), 'default is zero', got=v.cat)
    dm(cs.DM(x), x, 'vector DM')
    y = np.where(ctx.np.random(n) < 0.5, 0., x)
    dm(cs.sparsify(cs.DM(y)), y, 'sparse vector DM')
    dm(x.copy(), x, 'vector ndarray')
    dm(x.reshape(-1, 1).copy(), x, 'column ndarray')
    dm([float(i) for i in x], x, 'vector list')
    dm(np.asfortranarray(x.reshape(-1, 1)), x, 'column ndarray F')
    ints = ctx.np.integers(-5, 5, size=n)
    dm(ints, ints.astype(float), 'integer ndarray')
    dm(o(cs.DM(x)), x, 'struct')

    # Symbolic vectors
    for t in (cs.SX, cs.MX):
        w = t.sym('w', n)
        e = 3 * w
        v = src(e)
        ctx.check(isinstance(v.cat, t) and v.cat.shape == (n, 1), 'symbolic vector: type', got=type(v.cat))
        y = np.round(fresh_values(ctx, n))
        ctx.check(np.array_equal(cs.DM(evaluate(v.cat, w, y)).full()[:, 0], 3 * y), 'symbolic vector: values', decl=spec.describe())
        ctx.event('accepted', 'vector ' + t.__name__, n)
        rejected(ctx, src, t.sym('w', n + 1), 'longer ' + t.__name__, spec)
        if n > 1:
            rejected(ctx, src, t.sym('w', n - 1), 'shorter ' + t.__name__, spec)
            rejected(ctx, src, t.sym('w', 1, n), 'row ' + t.__name__, spec)
        rejected(ctx, src, t.sym('w', n, 2), 'two columns ' + t.__name__, spec)

    structs(ctx, src, o, spec, n)
    rejected(ctx, src, cs.DM.ones(n + 1), 'longer DM', spec)
    rejected(ctx, src, np.ones(n + 2), 'longer ndarray', spec)
    rejected(ctx, src, cs.DM.ones(n, 2), 'two columns DM', spec)
    rejected(ctx, src, np.ones((n, 3)), 'three columns ndarray', spec)
    if n > 2:
        rejected(ctx, src, [1.] * (n - 1), 'shorter list', spec)
        rejected(ctx, src, cs.DM.ones(1, n), 'row DM', spec)
        rejected(ctx, src, np.ones((1, n)), 'row ndarray', spec)
    rejected(ctx, src, 'abc', 'a string', spec)
    rejected(ctx, src, object(), 'an object', spec)


def symbolic(ctx, call, w, e, what, spec, may_reject=False):
    """call(e) is a struct of the type of w holding the expression e of w."""
    try:
        v = call()
    except Exception:
        if not may_reject:
            raise
        ctx.event('rejected', what, spec.size)
        return
    t = type(w)
    ctx.check(isinstance(v.cat, t) and v.cat.shape == (spec.size, 1), what + ': type', got=v.cat, decl=spec.describe())
    y = np.round(fresh_values(ctx, w.numel()))
    want = cs.DM(evaluate(e, w, y))
    ctx.check(np.array_equal(cs.DM(evaluate(v.cat, w, y)).full(), want.full()), what + ': values', got=v.cat, decl=spec.describe())
    ctx.event('accepted', what, spec.size)


def structs(ctx, src, o, spec, n):
    """Structs and views as data."""
    for t in (cs.SX, cs.MX):
        name = t.__name__
        w = t.sym('w', n)
        e = w[::-1] * 2
        symbolic(ctx, lambda: src(o(e)), w, e, 'struct of ' + name, spec)
        symbolic(ctx, lambda: src(o.repeated(cs.reshape(e, n, 1))), w, e, 'view of ' + name, spec)
        s = (ce.struct_symSX if t is cs.SX else ce.struct_symMX)([ce.entry('other', shape=n)])
        symbolic(ctx, lambda: src(s), s.cat, s.cat, 'symbolic struct ' + name, spec)
        c = (ce.struct_SX if t is cs.SX else ce.struct_MX)([ce.entry('other', expr=e)])
        symbolic(ctx, lambda: src(c), w, e, 'composed struct ' + name, spec)
        if n > 1:
            symbolic(ctx, lambda: src([e[i] for i in range(n)]), w, e, 'list of ' + name, spec, True)
            symbolic(ctx, lambda: src([e[0]] + [1.] * (n - 1)), w, cs.vertcat(e[0], cs.DM.ones(n - 1)), 'list with ' + name, spec, True)
        rejected(ctx, src, (ce.struct_symSX if t is cs.SX else ce.struct_symMX)([ce.entry('other', shape=n + 1)]), 'longer struct ' + name, spec)


def dicts(ctx):
    spec = gen_spec(ctx, ctx.pick([0, 1]), dict(empty=False), limit=60)
    o = build(ctx, spec, ctx.pick(['struct', 'symSX', 'symMX']))
    ctx.log('declare %s', spec.describe())
    cnt = Counter()
    pay = {k: gen_payload(ctx, spec.select((k,)), cnt) for k in spec.keys}
    want = np.zeros(spec.size)
    for k in spec.keys:
        want = assign(spec, (k,), pay[k], want)
    arg = {k: impl_payload(pay[k], ce) for k in ctx.r.sample(spec.keys, len(spec.keys))}
    if ctx.chance(0.2):
        arg = OrderedDict(arg)
    v = o(arg)
    ctx.check(isinstance(v.cat, cs.DM) and np.array_equal(v.cat.full()[:, 0], want), 'dict', got=v.cat, want=want, arg=pay, decl=spec.describe())
    ctx.check(list(v.keys()) == spec.keys, 'keys of a struct made of a dict')
    ctx.event('accepted', 'dict', len(spec.keys), spec.size)
    bad = dict(arg)
    del bad[ctx.pick(spec.keys)]
    rejected(ctx, o, bad, 'dict with a missing key', spec)
    bad = dict(arg)
    bad['no such entry'] = 0
    rejected(ctx, o, bad, 'dict with an extra key', spec)
    bad = dict(arg)
    k = ctx.pick(spec.keys)
    bad['other'] = bad.pop(k)
    rejected(ctx, o, bad, 'dict with a renamed key', spec)
    rejected(ctx, o, {}, 'empty dict', spec)
    # numbers only: symbols neither are lost nor turned into numbers
    k = ctx.pick(spec.keys)
    if spec.d[k].unit:
        for t in (cs.SX, cs.MX):
            bad = dict(arg)
            bad[k] = t.sym('w')
            try:
                r = o(bad)
            except Exception:
                ctx.event('rejected', 'dict with ' + t.__name__, spec.size)
            else:
                ctx.check(isinstance(r.cat, t), 'dict with %s values gives' % t.__name__, got=r.cat, decl=spec.describe())
    # later structs of the same structure are not affected by earlier ones
    w = o(arg)
    v[spec.keys[0]] = -1
    ctx.check(np.array_equal(w.cat.full()[:, 0], want), 'struct made of the same dict changed with another one', decl=spec.describe())
    ctx.check(np.array_equal(o(0).cat.full()[:, 0], np.zeros(spec.size)), 'zero struct affected by another one', decl=spec.describe())
    ctx.event('independent', spec.describe())


WORKLOADS = {'vectors': (vectors, 300, 6000), 'dicts': (dicts, 400, 8000)}
REQUIRED = {'accepted': 2500, 'rejected': 2500, 'independent': 250}
