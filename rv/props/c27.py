"""Implicit conversion and model functions preserve the equations."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..core import Skip
from .c26 import SYMBOLIC, cls, gen_parts

RULE = 'one distinct observation per (kind of model, sizes) or per (inputs in order, outputs in order)'
SIZES = ['nx', 'nz', 'nu', 'np', 'ntdp', 'nq']
KEEP = ['x', 'z', 'u', 'p', 't', 'tdp']


def points(ctx, syms):
    return [cs.DM(ctx.np.normal(size=s.shape)) for s in syms]


def convert(ctx):
    d, n = gen_parts(ctx, 'semi')
    m = ce.SemiExplicitDae(**d)
    ctx.log('semi-explicit with %s', {k: v.shape for k, v in d.items()})
    i = m.makeImplicit()
    ctx.check(isinstance(i, ce.ImplicitDae), 'type of the implicit form', got=type(i))
    for s in SIZES:
        ctx.check(int(getattr(i, s)) == int(getattr(m, s)), 'size %s changed' % s, got=getattr(i, s), want=getattr(m, s))
    for k in KEEP:
        ctx.check(getattr(i, k).shape == getattr(m, k).shape, 'shape of %s changed' % k, got=getattr(i, k).shape, want=getattr(m, k).shape)
    ctx.check(i.xdot.shape == (n['x'], 1) and i.dae.shape == (n['x'] + n['z'], 1), 'shapes of the implicit form', got=(i.xdot.shape, i.dae.shape))
    syms = [getattr(i, k) for k in KEEP]
    f = cs.Function('i', [i.xdot] + syms, [i.dae, i.quad])
    ref = cs.Function('m', [getattr(m, k) for k in KEEP], [m.ode, m.alg, m.quad])
    for _ in range(3):
        v = points(ctx, syms)
        xd = cs.DM(ctx.np.normal(size=(n['x'], 1)))
        dae, quad = [a.full() for a in f.call([xd] + v)]
        ode, alg, q = [a.full() for a in ref.call(v)]
        want = np.vstack([xd.full() - ode, alg.reshape(n['z'], 1)])
        ctx.check(dae.shape == want.shape and np.allclose(dae, want, rtol=1e-13, atol=1e-13), 'implicit residual', got=dae, want=want)
        ctx.check(quad.size == q.size and np.allclose(quad.ravel(), q.ravel(), rtol=1e-13, atol=1e-13), 'quadratures of the implicit form', got=quad, want=q)
        ctx.event('residual', sorted((k, s.shape) for k, s in d.items()))
    # the original model still works, and its symbols are those of the implicit form (functions of either are interchangeable)
    for k in KEEP:
        if k in d:
            cs.Function('k', [d[k]], [getattr(i, k)])
            ctx.event('symbol', k)
    same_again(ctx, i)


def same_again(ctx, i):
    j = i.makeImplicit()
    ctx.check(isinstance(j, ce.ImplicitDae), 'type of the converted implicit model', got=type(j))
    names = [k for k in ['xdot'] + KEEP if getattr(i, k).numel() > 0]
    for k in names:
        ctx.check(getattr(j, k).shape == getattr(i, k).shape, 'converting an implicit model changed %s' % k)
    syms = [getattr(i, k) for k in names]
    v = points(ctx, syms)
    a = cs.Function('a', syms, [i.dae, i.quad]).call(v)
    b = cs.Function('b', [getattr(j, k) for k in names], [j.dae, j.quad]).call(v)
    c = cs.Function('c', syms, [j.dae, j.quad]).call(v)
    for r in (b, c):
        ctx.check(all(np.array_equal(x.full(), y.full()) for x, y in zip(a, r)), 'converting an implicit model changed its equations')
    ctx.event('implicit', len(names))


def convert_implicit(ctx):
    d, n = gen_parts(ctx, 'implicit')
    ctx.log('implicit with %s', {k: v.shape for k, v in d.items()})
    same_again(ctx, ce.ImplicitDae(**d))


def functions(ctx):
    kind = ctx.pick(['semi', 'implicit', 'converted'])
    d, n = gen_parts(ctx, 'semi' if kind == 'converted' else kind)
    m = cls('semi' if kind == 'converted' else kind)(**d)
    outs = ['ode', 'alg', 'quad'] if kind == 'semi' else ['dae', 'quad']
    ins = list(KEEP) + (['xdot'] if kind != 'semi' else [])
    ref_in = [k for k in SYMBOLIC if k in d]
    ref_out = [k for k in ('ode', 'alg', 'dae', 'quad') if k in d]
    ref = cs.Function('ref', [d[k] for k in ref_in], [d[k] for k in ref_out])
    if kind == 'converted':
        m = m.makeImplicit()
    done = [function(ctx, kind, d, m, outs, ins, ref, ref_in, ref_out, ctx.pick(['fun', 'fun', 'other'])) for _ in range(ctx.pick([1, 2, 3]))]
    if not any(done):
        raise Skip()


def function(ctx, kind, d, m, outs, ins, ref, ref_in, ref_out, name):
    out = ctx.r.sample(outs, ctx.int(1, len(outs)))
    need = [k for k in ins if getattr(m, k).numel() and any(cs.depends_on(getattr(m, o), getattr(m, k)) for o in out if getattr(m, o).numel())]
    other = [k for k in ins if k not in need]
    arg = need + ctx.r.sample(other, ctx.int(0, len(other)))
    ctx.r.shuffle(arg)
    if not arg:
        return False
    ctx.log('%s with %s: function %s -> %s', kind, {k: v.shape for k, v in d.items()}, arg, out)
    if need and ctx.chance(0.2):        # an input is missing
        missing = ctx.pick(need)
        short = [k for k in arg if k != missing]
        try:
            m.createFunction(name, short, list(out))
        except Exception:
            ctx.event('incomplete', kind, short, out)
        else:
            ctx.fail('a function without the input %s' % missing, inputs=short, outputs=out)
    f = m.createFunction(name, list(arg), list(out))
    ctx.check(f.name() == name and list(f.name_in()) == arg and list(f.name_out()) == out, 'names of the function', got=(f.name(), f.name_in(), f.name_out()), want=(arg, out))
    for _ in range(2):
        val = {k: cs.DM(ctx.np.normal(size=getattr(m, k).shape)) for k in ins}
        r = dict(zip(ref_out, [a.full() for a in ref.call([val[k] if k in val else cs.DM.zeros(d[k].shape) for k in ref_in])]))
        if kind == 'converted':
            r['dae'] = np.vstack([val['xdot'].full() - r['ode'], r.get('alg', np.zeros((0, 1)))])
        pos = f.call([val[k] for k in arg])
        named = f(**{k: val[k] for k in arg})
        for o, a in zip(out, pos):
            want = r.get(o, np.zeros((0, 1)))
            for got in (a, named[o]):
                got = got.full()
                ctx.check(got.size == want.size and np.allclose(got.ravel(), want.ravel(), rtol=1e-13, atol=1e-13), 'output %s of the function' % o, got=got, want=want, inputs=arg, outputs=out)
            ctx.event('output', kind, o, arg, out)
    return True


WORKLOADS = {'convert': (convert, 400, 10000), 'implicit': (convert_implicit, 200, 4000), 'functions': (functions, 600, 20000)}
REQUIRED = {'residual': 1000, 'implicit': 500, 'output': 1500, 'incomplete': 60}
