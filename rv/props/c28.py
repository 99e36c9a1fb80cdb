"""Connecting models in parallel keeps each model intact."""
import casadi as cs
import numpy as np
import casadi_extras as ce
from casadi_extras.dae_model import parallel

from ..gendae import close, easy_steps, gen_model, gen_tdp, gen_time
from .c25 import TOL

RULE = 'one distinct observation per (sizes of the models in order, compared quantity)'
SYMS = ['x', 'z', 'u', 'p', 'tdp']
EQS = ['ode', 'alg', 'quad']
N_OF = dict(x='nx', z='nz', u='nu', p='np', tdp='ntdp', quad='nq')


def gen_models(ctx, nmax=4, **kw):
    k = ctx.pick([1, 2, 2, 3, nmax]) if nmax < 4 or ctx.chance(0.95) else ctx.int(11, 24)     # model_10 sorts before model_2
    ms = [gen_model(ctx, kind='semi', time=False, **kw) for _ in range(k)]
    return ms, [m.dae() for m in ms]


def size(m, k):
    return m.n[{'ode': 'x', 'alg': 'z', 'quad': 'q'}.get(k, k)]


def stacked(ctx):
    ms, daes = gen_models(ctx)
    ctx.log('%s', [m.describe() for m in ms])
    P = parallel(daes if ctx.chance(0.7) else tuple(daes))
    ctx.check(isinstance(P, ce.SemiExplicitDae), 'type of the connection', got=type(P))
    sig = [sorted(m.n.items()) for m in ms]
    for k, a in N_OF.items():
        want = sum(size(m, k) for m in ms)
        ctx.check(int(getattr(P, a)) == want, 'size %s' % a, got=getattr(P, a), want=want)
    for _ in range(2):
        vals = [{k: ctx.np.normal(size=m.n[k]) for k in SYMS} for m in ms]
        wants = []
        for m, v in zip(ms, vals):
            res, q = m(np.zeros(m.n['x']), v['x'], v['z'], v['u'], v['p'], 0., v['tdp'])
            wants.append(dict(ode=-res[:m.n['x']], alg=res[m.n['x']:], quad=q))
        f = P.createFunction('f', SYMS, EQS)
        r = f.call([cs.DM(np.hstack([v[k] for v in vals])) for k in SYMS])
        for k, a in zip(EQS, r):
            want = np.hstack([w[k] for w in wants])
            ctx.check(close(a.full().ravel(), want, 1e-12), '%s of the connection' % k, got=a.full().ravel(), want=want, models=[m.describe() for m in ms])
            ctx.event('stacked', k, sig)
        # per model
        args = [getattr(P, k) for k in SYMS]
        g = cs.Function('g', args, [getattr(P, k)['model_%d' % i] for i in range(len(ms)) for k in SYMS + EQS])
        r = g.call([cs.DM(np.hstack([v[k] for v in vals])) for k in SYMS])
        j = 0
        for i in range(len(ms)):
            for k in SYMS + EQS:
                want = vals[i][k] if k in SYMS else wants[i][k]
                ctx.check(close(r[j].full().ravel(), want, 1e-12), '%s of model %d in the connection' % (k, i), got=r[j].full().ravel(), want=want)
                ctx.event('entry', k, i, sig)
                j += 1
    # the given models are untouched
    for m, d in zip(ms, daes):
        for k in EQS:
            ctx.check(getattr(d, k).numel() == size(m, k), 'model changed by the connection')
        v = vals[ms.index(m)]
        h = d.createFunction('h', SYMS, EQS)
        r = h.call([cs.DM(v[k]) for k in SYMS])
        for k, a in zip(EQS, r):
            ctx.check(close(a.full().ravel(), wants[ms.index(m)][k], 1e-12), 'model changed by the connection: %s' % k)
    ctx.event('untouched', sig)


def integrated(ctx):
    ms, daes = gen_models(ctx, 3, solvable=True)
    t = easy_steps(ctx, ms, gen_time(ctx, 3))
    order, method = ctx.int(1, 4), ctx.pick(['legendre', 'radau'])
    N = len(t) - 1
    tdps = [gen_tdp(ctx, m.n['tdp'])[1] for m in ms]
    ctx.log('%s t=%s %s %d', [m.describe() for m in ms], list(t), method, order)
    any_tdp = sum(m.n['tdp'] for m in ms) > 0
    P = parallel(daes)
    F = ce.collocationIntegrator('F', P, t=t, order=order, method=method, tdp_fun=(lambda s: cs.DM(np.hstack([f(s) for f in tdps]))) if any_tdp else None)
    vals = [dict(x0=ctx.np.normal(size=m.n['x']), z0=0.1 * ctx.np.normal(size=m.n['z']), u=ctx.np.normal(size=(m.n['u'], N)), p=ctx.np.normal(size=m.n['p'])) for m in ms]
    R = F(x0=np.hstack([v['x0'] for v in vals]), z0=np.hstack([v['z0'] for v in vals]), u=np.vstack([v['u'] for v in vals]), p=np.hstack([v['p'] for v in vals]))
    R = {k: R[k].full() for k in R}
    o = dict(x=0, z=0, q=0)
    for i, (m, d, v) in enumerate(zip(ms, daes, vals)):
        f = ce.collocationIntegrator('f', d, t=t, order=order, method=method, tdp_fun=(lambda s, i=i: cs.DM(tdps[i](s))) if m.n['tdp'] else None)
        r = f(**v)
        for k, part in (('x', 'x'), ('xf', 'x'), ('X', 'x'), ('K', 'x'), ('Z', 'z'), ('Q', 'q'), ('qf', 'q')):
            n = m.n[part]
            if n:
                ctx.check(close(R[k][o[part]:o[part] + n], r[k].full(), TOL), '%s of model %d integrated in parallel' % (k, i), got=R[k][o[part]:o[part] + n], want=r[k], models=[m.describe() for m in ms])
                ctx.event('integrated', k, i, sorted(m.n.items()), N, order, method)
        for part in o:
            o[part] += m.n[part]


def nested(ctx):
    """Connections of connections."""
    ms, daes = gen_models(ctx, 4)
    k = ctx.int(0, len(daes))
    inner = [parallel(daes[:k])] + daes[k:] if k else [parallel(daes)]
    P = parallel(inner)
    Q = parallel(daes)
    ctx.log('%s, first %d connected before', [m.describe() for m in ms], k)
    f, g = [c.createFunction('f', SYMS, EQS) for c in (P, Q)]
    v = [cs.DM(ctx.np.normal(size=sum(m.n[k] for m in ms))) for k in SYMS]
    for k, a, b in zip(EQS, f.call(v), g.call(v)):
        ctx.check(close(a.full().ravel(), b.full().ravel(), 1e-12), '%s of a connection of connections' % k, got=a, want=b)
        ctx.event('nested', k, len(ms), len(inner))


WORKLOADS = {'stacked': (stacked, 400, 10000), 'integrated': (integrated, 150, 3000), 'nested': (nested, 150, 3000)}
REQUIRED = {'stacked': 1500, 'entry': 8000, 'untouched': 300, 'integrated': 700, 'nested': 300}
ASSUMPTIONS = ['the given models have symbols of their own, and none depends on time']
