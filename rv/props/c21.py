"""Execution options do not change the collocation equations."""
import threading

import casadi as cs
import numpy as np
import casadi_extras as ce

from ..gendae import OUT, Oracle, close, order_tol, evaluate, gen_values, scheme_function
from .c19 import gen_scheme

RULE = 'one distinct observation per (options, sizes of the model, grid size, order)'
MODES = ['serial', 'thread', 'unroll', 'inline', 'openmp']


def compare(ctx, got, want, what, repeat, v, order, **detail):
    for k in ('collocation', 'continuity', 'X', 'quad', 'q', 'Q', 'U'):
        ctx.check(close(got[k], want[k], order_tol(order)), '%s with %s' % (k, what), got=got[k], want=want[k], **detail)
    par = got['param']
    if not repeat:
        ctx.check(par.size == 0, 'parameter residual without repetition', got=par)
        return
    p = v['p']
    same = bool(np.all(p == p[:, :1]))
    if p.shape[0] and p.shape[1] > 1:
        ctx.check(same == bool(np.all(par == 0)), 'parameter residual must vanish exactly if all columns are equal', same=same, got=par, p=p)
        # and it must see a difference between any two columns
        ctx.check(par.size >= p.shape[0] * (p.shape[1] - 1), 'too few parameter equations', got=par.shape, p=p.shape)


def modes(ctx):
    model, t, order, method, tdp_fun, tdp = gen_scheme(ctx)
    N = len(t) - 1
    ctx.log('%s, t=%s, %s %d', model.describe(), list(t), method, order)
    orc = Oracle(model, t, order, method, tdp)
    dae = model.dae()
    v1 = gen_values(ctx, model, N, order)
    vr = dict(v1, p=np.repeat(v1['p'], N * order, axis=1))
    vd = dict(v1, p=ctx.np.normal(size=(model.n['p'], N * order)))
    ve = dict(v1, p=vr['p'].copy())         # only one element of one column differs
    if ve['p'].size and N * order > 1:
        ve['p'][ctx.int(0, model.n['p'] - 1), ctx.int(0, N * order - 1)] += 0.5
    combos = [(m, e, r) for m in MODES for e in (True, False) for r in (False, True)]
    for mode, expand, repeat in ctx.r.sample(combos, 5):
        s = ce.CollocationScheme(dae, t=t, order=order, method=method, tdp_fun=tdp_fun, parallelization=mode, expand=expand, repeat_param=repeat)
        what = 'parallelization=%s expand=%s repeat_param=%s' % (mode, expand, repeat)
        ctx.check(s.p.shape == (model.n['p'], N * order if repeat else 1), 'shape of the parameters with %s' % what, got=s.p.shape)
        f = scheme_function(s)
        for v in ([vr, vd, ve] if repeat else [v1]):
            want = orc(**v)
            for _ in range(3 if mode == 'thread' else 1):
                compare(ctx, evaluate(f, v), want, what, repeat, v, model=model.describe(), t=t, order=order)
            ctx.event('mode', mode, expand, repeat, sorted(model.n.items()), N, order)


def concurrent(ctx):
    """The same scheme functions evaluated from several Python threads at once, on top of thread parallelization."""
    model, t, order, method, tdp_fun, tdp = gen_scheme(ctx, nx=ctx.int(1, 3))
    N = len(t) - 1
    ctx.log('%s, t=%s, %s %d', model.describe(), list(t), method, order)
    orc = Oracle(model, t, order, method, tdp)
    s = ce.CollocationScheme(model.dae(), t=t, order=order, method=method, tdp_fun=tdp_fun, parallelization=ctx.pick(['thread', 'thread', 'serial']))
    f = scheme_function(s)
    vs = [gen_values(ctx, model, N, order) for _ in range(4)]
    wants = [orc(**v) for v in vs]
    res, errs = [None] * 4, []

    def work(k):
        try:
            out = []
            for _ in range(3):
                out.append(evaluate(f, vs[k]))
            res[k] = out
        except Exception as e:
            errs.append(e)
    ths = [threading.Thread(target=work, args=(k,)) for k in range(4)]
    for th in ths:
        th.start()
    for th in ths:
        th.join()
    if errs:
        raise errs[0]
    for k in range(4):
        for got in res[k]:
            compare(ctx, got, wants[k], 'concurrent evaluation', False, vs[k], order)
    ctx.event('concurrent', sorted(model.n.items()), N, order)


WORKLOADS = {'modes': (modes, 300, 8000), 'concurrent': (concurrent, 60, 1500)}
REQUIRED = {'mode': 1000, 'concurrent': 40}
ASSUMPTIONS = ['OpenMP mode falls back to serial evaluation in this build of CasADi', 'thread schedules are whatever the OS produced; they are not enumerated']
