"""Concatenating inequalities keeps each bound with its expression."""
from collections import OrderedDict, defaultdict

import casadi as cs
import numpy as np
import casadi_extras as ce
from casadi_extras.inequality import vertcat

from ..gendae import holes
from .c29 import gen_value, number

RULE = 'one distinct observation per (form, shapes of the parts, which bounds are given)'


class Part(object):
    """One inequality with everything known about it."""
    def __init__(self, ctx, v, shape):
        self.shape = shape
        n = shape[0] * shape[1]
        W = np.round(ctx.np.normal(size=(n, v.numel())), 2)
        c = np.round(ctx.np.normal(size=n), 2)
        sq = ctx.chance(0.4)
        e = cs.mtimes(cs.DM(W), cs.sin(v) if sq else v) + cs.DM(c) if n else cs.MX(0, 1)
        self.fun = lambda p: (np.dot(W, np.sin(p) if sq else p) + c).reshape(shape, order='F')
        self.expr = cs.reshape(e, *shape)
        if n and ctx.chance(0.15):      # the constant 0, which has bounds nevertheless
            self.expr, keep = holes(ctx, self.expr)
            full = self.fun
            self.fun = lambda p: np.where(keep, full(p), 0.)
        a, b = gen_value(ctx, shape), gen_value(ctx, shape)
        self.lb, self.ub = np.minimum(a, b) - ctx.pick([0., 1., 3.]), np.maximum(a, b) + ctx.pick([0., 1., 3.])
        self.lb[np.isinf(self.lb)] = -np.inf
        self.ub[np.isinf(self.ub)] = np.inf
        if ctx.chance(0.1):         # unsatisfiable: the bounds are kept as they are
            self.lb, self.ub = self.ub, self.lb
        self.nominal = gen_value(ctx, shape)
        kw = {'lb': cs.DM(self.lb), 'ub': cs.DM(self.ub), 'nominal': cs.DM(self.nominal)}
        if ctx.chance(0.25):
            del kw['lb']
            self.lb = np.full(shape, -np.inf)
        if ctx.chance(0.25):
            del kw['ub']
            self.ub = np.full(shape, np.inf)
        if not ctx.chance(ctx.case_nominal):
            del kw['nominal']
            self.nominal = None
        self.sig = (shape, sorted(kw))
        self.ineq = ce.Inequality(expr=self.expr, **kw)

    def satisfied(self, p):
        e = self.fun(p)
        return bool(np.all(self.lb <= e) and np.all(e <= self.ub))


def gen_parts(ctx, v, shapes):
    ctx.case_nominal = ctx.pick([0., 0., 1., 1., 0.5])
    return [Part(ctx, v, s) for s in shapes]


def examine(ctx, r, parts, v, axis_stack, what):
    """axis_stack: function stacking a list of arrays as the result should."""
    sig = (what, [p.sig for p in parts])
    e = r.expr.cat if hasattr(r.expr, 'cat') else r.expr
    f = cs.Function('f', [v], [e])
    lb, ub = number(r.lb), number(r.ub)
    wl, wu = axis_stack([p.lb for p in parts]), axis_stack([p.ub for p in parts])
    ctx.check(lb.shape == wl.shape and np.array_equal(lb, wl), 'lower bounds', got=lb, want=wl)
    ctx.check(ub.shape == wu.shape and np.array_equal(ub, wu), 'upper bounds', got=ub, want=wu)
    have = [p.nominal is not None for p in parts]
    if not any(have):
        ctx.check(r.nominal is None, 'nominal value without any given', got=r.nominal)
    elif all(have):
        wn = axis_stack([p.nominal for p in parts])
        ctx.check(r.nominal is not None and np.array_equal(number(r.nominal), wn), 'nominal values', got=r.nominal, want=wn)
    else:
        wn = axis_stack([np.full(p.shape, np.nan) if p.nominal is None else p.nominal for p in parts])
        mask = axis_stack([np.full(p.shape, p.nominal is not None) for p in parts]).astype(bool)
        a = number(r.nominal)
        ctx.check(a.shape == wn.shape and np.array_equal(a[mask], wn[mask]), 'nominal values', got=a, want=wn)
    ctx.check(int(r.numel()) == wl.size, 'number of elements', got=r.numel(), want=wl.size)
    for _ in range(4):
        p = ctx.np.normal(size=v.numel()) * ctx.pick([0.3, 1., 3.])
        got = f(cs.DM(p)).full()
        want = axis_stack([q.fun(p) for q in parts])
        ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-12), 'expressions', got=got, want=want)
        near = [b for q in parts for b in (np.abs(q.fun(p) - q.lb), np.abs(q.fun(p) - q.ub)) if b.size]
        if near and min(b.min() for b in near) < 1e-9:
            continue
        sat = bool(np.all(lb <= got) and np.all(got <= ub))
        ctx.check(sat == all(q.satisfied(p) for q in parts), 'a point satisfies the result but not the parts or vice versa', point=p)
        ctx.event('satisfied' if sat else 'unsatisfied', *sig)
    ctx.event('concatenated', *sig)


def count(ctx):
    return ctx.int(1, 4) if ctx.chance(0.95) else ctx.int(11, 40)


def as_list(ctx):
    v = cs.MX.sym('v', ctx.int(1, 4))
    m = ctx.pick([1, 1, 1, 2, 3])
    shapes = [(ctx.pick([1, 2, 3] + ([0] if m == 1 else [])), m) for _ in range(count(ctx))]
    parts = gen_parts(ctx, v, shapes)
    ctx.log('list of %s', [p.sig for p in parts])
    l = [p.ineq for p in parts]
    r = vertcat(l if ctx.chance(0.7) else tuple(l))
    examine(ctx, r, parts, v, np.vstack, 'list')
    if len(parts) > 1:          # nested
        k = ctx.int(1, len(parts) - 1)
        r = vertcat([vertcat(l[:k]), vertcat(l[k:])])
        if len({p.nominal is None for p in parts}) == 1:
            examine(ctx, r, parts, v, np.vstack, 'nested list')


def nothing(ctx):
    for r in (vertcat([]), vertcat(()), vertcat([ce.Inequality()])):
        ctx.check(int(r.numel()) == 0 and number(r.lb).size == 0 and number(r.ub).size == 0, 'concatenation of nothing', got=r)
    ctx.event('nothing', 'list')


def flat(l):
    return np.vstack([a.reshape(-1, 1, order='F') for a in l])


def access(ctx, r, key, p, v):
    for name, want in (('lb', p.lb), ('ub', p.ub), ('nominal', p.nominal)):
        if want is None:
            continue
        got = cs.DM(getattr(r, name)[key]).full()
        ctx.check(got.shape == want.shape and np.array_equal(got, want), '%s under key %s' % (name, key), got=got, want=want)
    e = cs.Function('e', [v], [r.expr[key]])
    x = ctx.np.normal(size=v.numel())
    got = e(cs.DM(x)).full()
    ctx.check(got.shape == p.shape and np.allclose(got, p.fun(x), rtol=1e-12, atol=1e-12), 'expression under key %s' % (key,), got=got, want=p.fun(x))
    ctx.event('key', 1, p.sig)


NAMES = ['b', 'a', 'zeta', 'alpha', 'x', 'pos', 'k1', 'c']


def as_dict(ctx):
    v = cs.MX.sym('v', ctx.int(1, 4))
    shapes = [ctx.pick([(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (2, 3)]) for _ in range(count(ctx))]
    parts = gen_parts(ctx, v, shapes)
    names = ctx.r.sample(NAMES if len(parts) < 5 else ['k%d' % i for i in range(len(parts))], len(parts))
    d = {k: p.ineq for k, p in zip(names, parts)}
    ctx.log('dict of %s', {k: p.sig for k, p in zip(names, parts)})
    before = dict(d)
    if ctx.chance(0.3):
        d = ctx.pick([OrderedDict, lambda x: defaultdict(list, x)])(d)
    r = vertcat(d)
    ctx.check(list(d) == list(before) and all(d[k] is before[k] for k in d), 'the given dict was changed')
    examine(ctx, r, parts, v, flat, 'dict')
    ctx.check(list(r.expr.keys()) == names, 'keys of the result', got=r.expr.keys(), want=names)
    for k, p in zip(names, parts):
        access(ctx, r, k, p, v)


def nested(ctx):
    """Dicts whose members are themselves concatenations (of dicts or lists)."""
    v = cs.MX.sym('v', ctx.int(1, 4))
    ctx.case_nominal = ctx.pick([0., 1., 1.])

    def build(depth):
        """(inequality, parts in order)"""
        if not depth or ctx.chance(0.4):
            p = Part(ctx, v, ctx.pick([(1, 1), (2, 1), (3, 1)]))
            return p.ineq, [p]
        members = [build(depth - 1) for _ in range(ctx.int(1, 3))]
        parts = [p for m in members for p in m[1]]
        if ctx.chance(0.3):
            return vertcat([m[0] for m in members]), parts
        return vertcat(dict(zip(ctx.r.sample(NAMES, len(members)), [m[0] for m in members]))), parts
    members = [build(2) for _ in range(ctx.int(1, 3))]
    names = ctx.r.sample(NAMES, len(members))
    ctx.log('nested dicts %s', [(k, [p.sig for p in m[1]]) for k, m in zip(names, members)])
    r = vertcat(dict(zip(names, [m[0] for m in members])))
    examine(ctx, r, [p for m in members for p in m[1]], v, flat, 'nested')
    for k, (q, parts) in zip(names, members):
        for name in ('lb', 'ub', 'nominal'):
            w = [getattr(p, name) for p in parts]
            if w[0] is None:
                continue
            got = cs.DM(getattr(r, name)[k]).full()
            ctx.check(np.array_equal(got, flat(w)), '%s under key %s' % (name, k), got=got, want=flat(w))
        x = ctx.np.normal(size=v.numel())
        got = cs.Function('e', [v], [r.expr[k]])(cs.DM(x)).full()
        want = flat([p.fun(x) for p in parts])
        ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-12), 'expression under key %s' % k, got=got, want=want)
        ctx.event('key', len(parts), [p.sig for p in parts])


WORKLOADS = {'nothing': (nothing, 1, 1), 'list': (as_list, 500, 12000), 'dict': (as_dict, 500, 12000), 'nested': (nested, 400, 8000)}
REQUIRED = {'concatenated': 1000, 'key': 1500, 'satisfied': 500, 'unsatisfied': 500}
