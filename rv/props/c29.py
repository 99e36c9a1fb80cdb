"""Inequalities always carry bounds of the expression shape."""
import casadi as cs
import numpy as np
import casadi_extras as ce

RULE = 'one distinct observation per (form of the expression, shape, form of the bounds and nominal value given)'
SHAPES = [(1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (0, 1), (5, 1)]


def gen_expr(ctx, shape):
    n, m = shape
    k = ctx.pick(['MX', 'MX', 'MX expr', 'SX', 'SX expr', 'struct', 'struct', 'struct expr'])
    if k.startswith('struct') and m == 1 and n > 0:
        a = ctx.int(1, n)
        es = [ce.entry('a', shape=a)] + ([ce.entry('b', shape=n - a)] if n > a else [])
        if k == 'struct':
            return k, ctx.pick([ce.struct_symMX, ce.struct_symSX])(es)
        s = cs.MX.sym('s', n)
        return k, ce.struct_MX([ce.entry('a', expr=cs.sin(s[:a]))] + ([ce.entry('b', expr=s[a:] * 2)] if n > a else []))
    if k.startswith('struct'):
        k = 'MX'
    T = cs.SX if k.startswith('SX') else cs.MX
    s = T.sym('s', n, m)
    if n * m and ctx.chance(0.15):      # structural zeros
        e = T(n, m)
        for i in range(n):
            for j in range(m):
                if ctx.chance(0.5):
                    e[i, j] = s[i, j] * 2
        return k + ' sparse', e
    return k, (s * s + 1 if 'expr' in k else s)


def gen_value(ctx, shape):
    """Numbers, some of them infinite."""
    a = np.round(ctx.np.normal(size=shape) * 3, 2)
    if a.size and ctx.chance(0.3):
        a.flat[ctx.int(0, a.size - 1)] = ctx.pick([np.inf, -np.inf, 0.])
    return a


def present(ctx, a, expr):
    """The value in one of the accepted forms."""
    forms = ['DM', 'np']
    if a.shape == (1, 1):
        forms += ['float', 'float']
    if a.shape[1] == 1 and a.size:
        forms += ['list', '1d']
    if a.size and np.all(np.isfinite(a)):
        forms.append('sparse')
    if hasattr(expr, 'keys') and a.shape[1] == 1:
        forms += ['struct', 'struct']
    k = ctx.pick(forms)
    if k == 'DM':
        v = cs.DM(a)
    elif k == 'sparse':
        v = cs.sparsify(cs.DM(a))
    elif k == 'np':
        v = a.copy()
    elif k == 'float':
        v = float(a[0, 0])
    elif k == 'list':
        v = [float(x) for x in a[:, 0]]
    elif k == '1d':
        v = a[:, 0].copy()
    else:
        v = expr(cs.DM(a))
    return k, v


def number(v):
    """Value of a bound (DM or struct) as an array."""
    return cs.DM(v.cat if hasattr(v, 'cat') else v).full()


def examine(ctx, q, expr, given, shape):
    ctx.check(tuple(q.expr.shape) == shape, 'shape of the expression', got=q.expr.shape, want=shape)
    for name in ('lb', 'ub', 'nominal'):
        got, want = getattr(q, name), given.get(name)
        if want is None and name == 'nominal':
            ctx.check(got is None, 'a nominal value appeared', got=got)
            continue
        if want is None:
            want = np.full(shape, -np.inf if name == 'lb' else np.inf)
        ctx.check(got is not None and tuple(got.shape) == shape, 'shape of %s' % name, got=getattr(got, 'shape', None), want=shape)
        a = number(got)
        ctx.check(a.shape == shape and np.array_equal(a, want), 'value of %s' % name, got=a, want=want)
    ctx.check(int(q.numel()) == shape[0] * shape[1], 'number of elements', got=q.numel(), want=shape)


def constructed(ctx):
    shape = ctx.pick(SHAPES)
    kind, expr = gen_expr(ctx, shape)
    given, forms, kw = {}, {}, {}
    for name in ('lb', 'ub', 'nominal'):
        if ctx.chance(0.6):
            given[name] = gen_value(ctx, shape)
            forms[name], kw[name] = present(ctx, given[name], expr)
    ctx.log('%s of shape %s with %s = %s', kind, shape, forms, kw)
    if ctx.chance(0.2):         # by position
        q = ce.Inequality(expr, kw.get('lb'), kw.get('ub'), kw.get('nominal'))
    elif ctx.chance(0.2):       # absent ones given as None
        q = ce.Inequality(expr=expr, **{k: kw.get(k) for k in ('lb', 'ub', 'nominal')})
    else:
        q = ce.Inequality(expr=expr, **kw)
    examine(ctx, q, expr, given, shape)
    if ctx.chance(0.4):         # the caller goes on using the matrices and lists
        for name, v in kw.items():
            if shape[0] * shape[1] and forms[name] in ('DM', 'np', 'list', '1d', 'sparse'):
                v[0] = 12345.
        examine(ctx, q, expr, given, shape)
    # the expression is the given one
    if shape[0] * shape[1]:
        e = expr.cat if hasattr(expr, 'cat') else expr
        g = q.expr.cat if hasattr(q.expr, 'cat') else q.expr
        syms = cs.symvar(e)
        f = cs.Function('f', syms, [e, g])
        a, b = f.call([cs.DM(ctx.np.normal(size=s.shape)) for s in syms])
        ctx.check(np.array_equal(a.full(), b.full()), 'expression', got=b, want=a)
    ctx.event('inequality', kind, shape, sorted(forms.items()))


def other_shape(ctx, shape):
    n, m = shape
    c = [(n + 1, m), (m, n), (n, m + 1), (1, 1), (n * m, 1), (1, n * m), (0, 0), (n - 1, m), (n + m, 1)]
    c = [s for s in c if s != shape and min(s) >= 0]
    return ctx.pick(c)


def rejected(ctx):
    shape = ctx.pick([s for s in SHAPES if s != (0, 1)])
    kind, expr = gen_expr(ctx, shape)
    bad = ctx.pick(['lb', 'ub', 'nominal'])
    kw = {}
    for name in ('lb', 'ub', 'nominal'):
        if name == bad:
            s = other_shape(ctx, shape)
            v = np.round(ctx.np.normal(size=s), 2)
            kw[name] = cs.DM(v) if ctx.chance(0.6) or v.size == 0 else float(v[0, 0]) if s == (1, 1) and ctx.chance(0.6) else v
        elif ctx.chance(0.4):
            kw[name] = present(ctx, gen_value(ctx, shape), expr)[1]
    ctx.log('%s of shape %s with %s of shape %s', kind, shape, bad, s)
    try:
        q = ce.Inequality(expr=expr, **kw)
    except Exception:
        ctx.event('rejected', kind, shape, bad, s)
    else:
        ctx.fail('%s of shape %s accepted for an expression of shape %s' % (bad, s, shape), got=q)


def not_numbers(ctx):
    """Symbols given as bounds."""
    shape = ctx.pick([s for s in SHAPES if s != (0, 1)])
    kind, expr = gen_expr(ctx, shape)
    bad = ctx.pick(['lb', 'ub', 'nominal'])
    t = ctx.pick([cs.SX, cs.SX, cs.MX])
    s = t.sym('b', *shape)
    form = ctx.pick(['symbol', 'expression', 'list', 'struct'])
    if form == 'expression':
        s = s + 1
    elif form == 'list' and shape[1] == 1:
        s = [s[i] for i in range(shape[0])]
    elif form == 'struct' and shape[1] == 1:
        s = (ce.struct_symSX if t is cs.SX else ce.struct_symMX)([ce.entry('b', shape=shape[0])])
    kw = {name: s if name == bad else present(ctx, gen_value(ctx, shape), expr)[1] for name in ('lb', 'ub', 'nominal') if name == bad or ctx.chance(0.4)}
    for what, f in (('inequality', lambda: ce.Inequality(expr=expr, **kw)),
                    ('variable', lambda: ce.BoundedVariable('v', **dict(dict(nominal=cs.DM.zeros(*shape)), **kw)))):
        try:
            q = f()
        except Exception:
            ctx.event('rejected', what, kind, shape, bad, form, t.__name__)
        else:
            ctx.fail('%s: symbols accepted as %s' % (what, bad), got=q)


def variable(ctx):
    shape = ctx.pick(SHAPES)
    nominal = gen_value(ctx, shape)
    given = {'nominal': nominal}
    kw = {'nominal': cs.DM(nominal) if ctx.chance(0.7) else nominal.copy()}
    for name in ('lb', 'ub'):
        if ctx.chance(0.6):
            given[name] = gen_value(ctx, shape)
            kw[name] = present(ctx, given[name], None)[1]
    name = ctx.pick(['var', 'position', 'x'])
    ctx.log('variable %s with %s', name, kw)
    v = ce.BoundedVariable(name, **kw) if ctx.chance(0.7) else ce.BoundedVariable(name=name, **kw)
    examine(ctx, v, v.expr, given, shape)
    ctx.check(v.expr.is_valid_input(), 'a bounded variable must be a symbol', got=v.expr)
    if shape[0] * shape[1]:
        ctx.check(v.expr.name() == name, 'name of the variable', got=v.expr.name(), want=name)
    ctx.check(isinstance(v, ce.Inequality), 'type', got=type(v))
    w = ce.BoundedVariable(name, **kw)
    if shape[0] * shape[1]:
        ctx.check(not cs.depends_on(w.expr, v.expr), 'two variables share their symbol')
    ctx.event('variable', shape, sorted(kw))
    # inconsistent bounds
    s = other_shape(ctx, shape)
    for k in ('lb', 'ub'):
        try:
            ce.BoundedVariable(name, **dict(kw, **{k: cs.DM.zeros(*s)}))
        except Exception:
            ctx.event('rejected', 'variable', shape, k, s)
        else:
            ctx.fail('%s of shape %s accepted for a variable of shape %s' % (k, s, shape))


def empty(ctx):
    for q in (ce.Inequality(), ce.BoundedVariable(), ce.BoundedVariable('v')):
        ctx.check(int(q.numel()) == 0 and tuple(q.expr.shape) == (0, 1) and tuple(q.lb.shape) == (0, 1) and tuple(q.ub.shape) == (0, 1), 'default inequality must be empty', got=q)
    ctx.event('empty', 'default')


WORKLOADS = {'constructed': (constructed, 1000, 20000), 'rejected': (rejected, 800, 15000), 'not_numbers': (not_numbers, 200, 4000), 'variable': (variable, 500, 10000), 'empty': (empty, 8, 20)}
REQUIRED = {'inequality': 800, 'rejected': 1200, 'variable': 400, 'empty': 1}
