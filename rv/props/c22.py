"""Packing scheme parts into one decision vector is lossless."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..gendae import OUT, Oracle, close, evaluate, gen_values, scheme_function, used
from .c19 import gen_scheme

RULE = 'one distinct observation per (parts in order, sizes of the model, grid size, order)'
PARTS = ['K', 'x', 'Z', 'U', 'u', 'p', 'eq', 'q']
SYMS = ['x', 'K', 'Z', 'u', 'p']


def packing(ctx):
    model, t, order, method, tdp_fun, tdp = gen_scheme(ctx, nmax=3 if ctx.chance(0.5) else 5, zeros=False)    # structural zeros of q are no elements
    N = len(t) - 1
    repeat = ctx.chance(0.3)
    s = ce.CollocationScheme(used(ctx, model, ce.CollocationScheme, t, order, method, tdp_fun), t=t, order=order, method=method, tdp_fun=tdp_fun, repeat_param=repeat)
    orc = Oracle(model, t, order, method, tdp)
    v = gen_values(ctx, model, N, order, repeat)
    want = orc(**v)
    parts = ctx.r.sample(PARTS, ctx.int(1, len(PARTS)))
    ctx.log('%s, t=%s, %s %d, parts %s', model.describe(), list(t), method, order, parts)
    n = model.n
    shape = dict(x=(n['x'], N + 1), K=(n['x'], N * order), Z=(n['z'], N * order), u=(n['u'], N), U=(n['u'], N * order), p=v['p'].shape, q=(n['q'], N + 1))
    f = scheme_function(s)
    ev = evaluate(f, v)
    shape['eq'] = ev['cat'].shape
    value = dict(v, U=want['U'], q=want['q'], eq=ev['cat'])
    if ctx.chance(0.4):          # other packings of the same scheme before
        for w in (ctx.r.sample(parts, len(parts)), ctx.r.sample(parts, ctx.int(1, len(parts))), ctx.r.sample(PARTS, len(parts))):
            ctx.check(list(s.combine(w).keys()) == w, 'entries of another combined struct', want=w)
    c = s.combine(parts if ctx.chance(0.7) else tuple(parts))
    ctx.check(list(c.keys()) == parts, 'entries of the combined struct', got=c.keys(), want=parts)
    total = sum(shape[k][0] * shape[k][1] for k in parts)
    ctx.check(int(c.size) == total, 'size of the combined struct', got=c.size, want=total, parts=parts)
    if total == 0:
        return
    g = cs.Function('g', [s.x, s.K, s.Z, s.u, s.p], [c.cat] + [c[k] for k in parts])
    r = [x.full() for x in g.call([cs.DM(v[k]) for k in SYMS])]
    flat = np.hstack([value[k].ravel(order='F') for k in parts])
    ctx.check(close(r[0][:, 0], flat), 'combined vector', got=r[0][:, 0], want=flat, parts=parts)
    for k, x in zip(parts, r[1:]):
        ctx.check(x.shape == shape[k] and close(x, value[k]), 'part %s of the combined struct' % k, got=x, want=value[k])
    ctx.event('combined', parts, sorted(n.items()), N, order, repeat)
    # instantiation with a vector
    w = ctx.np.normal(size=total)
    d = c(cs.DM(w))
    o = 0
    for k in parts:
        m = shape[k][0] * shape[k][1]
        x = w[o:o + m].reshape(shape[k], order='F')
        o += m
        got = cs.DM(d[k]).full()
        ctx.check(got.shape == x.shape and np.array_equal(got, x), 'slice of part %s' % k, got=got, want=x, parts=parts)
    ctx.event('instantiated', parts, total)
    # equations through the decision vector
    syms = ctx.r.sample(SYMS, ctx.int(1, len(SYMS)))
    rest = [k for k in SYMS if k not in syms]
    var = s.combine(syms)
    if int(var.size) == 0:
        return
    h = cs.Function('h', [var] + [getattr(s, k) for k in rest], [s.eq.cat])
    packed = var(0)
    for k in syms:
        if v[k].size:
            packed[k] = cs.DM(v[k])
    a = h.call([packed.cat] + [cs.DM(v[k]) for k in rest])[0].full()
    ctx.check(close(a, ev['cat']), 'residual through the decision vector', got=a, want=ev['cat'], parts=syms)
    a = h.call([cs.DM(np.hstack([v[k].ravel(order='F') for k in syms]))] + [cs.DM(v[k]) for k in rest])[0].full()
    ctx.check(close(a, ev['cat']), 'residual through a plain vector', got=a, want=ev['cat'], parts=syms)
    ctx.event('residual', syms, N, order)
    for bad in ctx.r.sample(['X', 'Q', 'x0', 'z', 'tc', 'foo', '', 'quad', 'k', 'butcher', 't'], 3):
        try:
            s.combine(ctx.r.sample(parts + [bad], len(parts) + 1))
        except Exception:
            ctx.event('rejected', bad)
        else:
            ctx.fail('unknown part %r accepted' % bad)


WORKLOADS = {'packing': (packing, 500, 15000)}
REQUIRED = {'combined': 350, 'instantiated': 350, 'residual': 350, 'rejected': 900}
