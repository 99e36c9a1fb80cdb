"""Matrix views address the right block of the right matrix."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import Counter, build, compare, evaluate, fresh_values, payload_for, gen_power, gen_spec, power_kind, shape_of
from ..refstruct import Deleg, Ent, Fn, Spec, assign, impl_payload, impl_power
from .c03 import KNOWN

RULE = 'one distinct observation per (view, matrix type, kind of index, shape of the block)'


def gen_view(ctx):
    small = dict(empty=False, symm=False, shapestruct=False, small=True)
    kind = ctx.pick(['repeated', 'squared', 'product', 'squared_repeated'])
    if kind == 'repeated':
        a = gen_spec(ctx, 1, dict(empty=False), limit=20)
        n = ctx.int(1, 4) if ctx.chance(0.95) else ctx.int(1, 2) + 300 // a.size
        top = Spec([Ent('t', [n], struct=a)])
        return kind, a, None, top, (a.size, n)
    a = gen_spec(ctx, 1, small, limit=11, n=ctx.int(1, 3))
    if kind == 'squared':
        return kind, a, None, Spec([Ent('t', [], a.size, a.size, shapestruct=(a, a))]), (a.size, a.size)
    if kind == 'product':
        b = gen_spec(ctx, 1, small, limit=11, n=ctx.int(1, 3))
        return kind, a, b, Spec([Ent('t', [], a.size, b.size, shapestruct=(a, b))]), (a.size, b.size)
    n = ctx.int(1, 3) if ctx.chance(0.95) else ctx.int(1, 2) + 300 // a.size ** 2
    return kind, a, None, Spec([Ent('t', [n], a.size, a.size, shapestruct=(a, a))]), (a.size, a.size * n)


def sub_power(ctx, top, setting=False):
    """Power index below the view's own prefix."""
    for _ in range(50):
        pw = gen_power(ctx, top, setting)
        if pw[0] == 't' and len(pw) > 1:
            return pw
    return ('t', 0)


def views(ctx, t, writes):
    kind, a, b, top, shape = gen_view(ctx)
    sa = build(ctx, a, ctx.pick(['struct', 'symSX', 'symMX']))
    sb = build(ctx, b, ctx.pick(['struct', 'symSX', 'symMX'])) if b is not None else None
    vals = fresh_values(ctx, top.size)
    num = cs.reshape(cs.DM(vals), *shape)
    sym = None
    if t is cs.DM:
        m = cs.DM(num)
        if ctx.chance(0.3):
            m = num.full()
    else:
        sym = t.sym('w', top.size)
        m = cs.reshape(t(sym), *shape)
        if ctx.chance(0.3):
            m = t(num)
    ctx.log('%s of %s, matrix %s %s', kind, a.describe(), type(m).__name__, shape)
    v = sa.product(sb, m) if kind == 'product' else getattr(sa, kind)(m)

    def numbers(x):
        return x if sym is None else evaluate(x, sym, vals0)
    vals0 = np.array(vals)
    cnt = Counter()

    def whole(what):
        c = cs.DM(numbers(v.cast()))
        want = np.reshape(vals, shape, order='F')
        ctx.check(c.shape == shape and np.array_equal(c.full(), want), what, got=c, want=want, view=kind, decl=a.describe(), history=ctx.trace)
        if t is cs.DM and isinstance(m, cs.DM):
            ctx.check(np.array_equal(m.full(), want), what + ' (the matrix given)', got=m, want=want, view=kind)

    whole('matrix behind the view')
    for _ in range(8):
        pw = sub_power(ctx, top)
        ctx.log('read %s', pw[1:])
        want = top.read(pw, vals)
        got = numbers(v[impl_power(pw[1:], ce)])
        compare(ctx, got, want, '%s view read %s of %s' % (kind, pw[1:], a.describe()))
        ctx.event('view-read', kind, t.__name__, power_kind(pw[1:]), shape_of(want))
    for _ in range(writes):
        pw = sub_power(ctx, top, True)
        if any(isinstance(p, Fn) for p in pw):
            continue
        pay = payload_for(ctx, top, pw, cnt)
        pos = assign(top, pw, pay, vals)
        try:
            other = assign(top, pw, pay, vals, 'abs')
        except Exception:
            continue        # C03's known finding
        if not np.array_equal(pos, other):
            continue
        ctx.log('write %s = %s', pw[1:], pay)
        v[impl_power(pw[1:], ce)] = impl_payload(pay, ce)
        vals = pos
        whole('matrix after writing %s' % (pw[1:],))
        ctx.event('view-write', kind, t.__name__, power_kind(pw[1:]))
        pw = sub_power(ctx, top)
        compare(ctx, numbers(v[impl_power(pw[1:], ce)]), top.read(pw, vals), '%s view read %s after writing, %s' % (kind, pw[1:], a.describe()))


def dm(ctx):
    views(ctx, cs.DM, 6)


def sx(ctx):
    views(ctx, cs.SX, 2)


def mx(ctx):
    views(ctx, cs.MX, 2)


def by_blocks(ctx):
    """Exhaustive over pairs of entry names of squared and product."""
    small = dict(empty=False, symm=False, shapestruct=False, sparse=False)
    a = gen_spec(ctx, 1, small, limit=12, n=ctx.int(2, 4))
    b = gen_spec(ctx, 1, small, limit=12, n=ctx.int(1, 3))
    sa, sb = build(ctx, a), build(ctx, b)
    sq = ctx.chance(0.5)
    rb, cb = a, (a if sq else b)
    m = ctx.np.normal(size=(rb.size, cb.size))
    v = sa.squared(m) if sq else sa.product(sb, m)
    ctx.log('blocks %s x %s', rb.describe(), cb.describe())
    for r in rb.keys:
        for c in cb.keys:
            want = m[np.ix_(rb.flat((r,)), cb.flat((c,)))]
            got = cs.DM(v[r, c])
            ctx.check(got.shape == want.shape and np.array_equal(got.full(), want), 'block (%s, %s)' % (r, c), got=got, want=want, rows=rb.describe(), cols=cb.describe())
            got = cs.DM(v[ce.indexf[r], ce.indexf[c]])
            ctx.check(np.array_equal(got.full(), want), 'block indexf (%s, %s)' % (r, c), got=got, want=want)
            ctx.event('block', sq, rb.d[r].describe(), cb.d[c].describe())
    x = ctx.np.normal(size=(len(rb.flat((rb.keys[0],))), len(cb.flat((cb.keys[-1],)))))
    v[rb.keys[0], cb.keys[-1]] = x
    m[np.ix_(rb.flat((rb.keys[0],)), cb.flat((cb.keys[-1],)))] = x
    ctx.check(np.array_equal(cs.DM(v.cast()).full(), m), 'matrix after writing a block', got=v.cast(), want=m)


def sizes(ctx):
    """A number fills the matrix of squared() and product(); a matrix of any other size is rejected by every view."""
    small = dict(empty=False, symm=False, shapestruct=False)
    a = gen_spec(ctx, 1, small, limit=9, n=ctx.int(1, 3))
    b = gen_spec(ctx, 1, small, limit=9, n=ctx.int(1, 3))
    sa, sb = build(ctx, a, ctx.pick(['struct', 'symSX', 'symMX'])), build(ctx, b, ctx.pick(['struct', 'symSX', 'symMX']))
    t = ctx.pick([cs.DM, cs.SX, cs.MX])
    ctx.log('sizes %s %s %s', t.__name__, a.describe(), b.describe())
    views = {'squared': (lambda *m: sa.squared(*m), lambda r, c: r == c == a.size),
             'product': (lambda *m: sa.product(sb, *m), lambda r, c: (r, c) == (a.size, b.size)),
             'repeated': (lambda *m: sa.repeated(*m), lambda r, c: r == a.size),
             'squared_repeated': (lambda *m: sa.squared_repeated(*m), lambda r, c: r == a.size and c % a.size == 0)}
    if a.size > 1:
        for kind, cols in (('squared', a.size), ('product', b.size)):
            x = ctx.pick([None, 0, 2, -1.5, np.float64(0.25), float('inf'), cs.DM(3.5), np.array([[4.]]), [7.]])
            got = views[kind][0](*([] if x is None else [x])).cast()
            want = np.full((a.size, cols), 0. if x is None else float(cs.DM(x)))
            ctx.check(isinstance(got, cs.DM) and got.shape == want.shape and np.array_equal(got.full(), want), '%s of a number' % kind, number=x, got=got, want=want)
            ctx.event('filled', kind, str(x))
    for kind in sorted(views):
        call, fits = views[kind]
        ok = (a.size, b.size if kind == 'product' else a.size)
        r, c = ctx.pick([(ok[0] + 1, ok[1]), (ok[0], ok[1] + 1), (ok[0] - 1, ok[1]), (ok[0], ok[1] - 1), (ok[1], ok[0]), (ok[0] * 2, ok[1]), (ok[0], ok[1] * 2),
                         (1, ok[1]), (ok[0], 1), (ok[0] * ok[1], 1), (1, ok[0] * ok[1]), (0, 0)])
        if fits(r, c) or (r, c) == (1, 1) or 0 in (r, c) and (r, c) != (0, 0):
            continue
        m = t(cs.DM(ctx.np.normal(size=(r, c))))
        if t is cs.DM and ctx.chance(0.5) and r * c:
            m = m.full()
        try:
            v = call(m)
        except Exception:
            ctx.event('rejected', kind, t.__name__)
        else:
            ctx.fail('%s accepted a matrix of size (%d, %d)' % (kind, r, c), rows=a.describe(), cols=b.describe(), type=t.__name__, got=v.cast())


def parse(ctx):
    spec = gen_spec(ctx, 0, dict(dims=False, empty=False, symm=False, shapestruct=False), limit=40)
    if spec.size == 1:
        return
    o = build(ctx, spec, ctx.pick(['struct', 'symSX', 'symMX']))
    n = ctx.int(1, 5)
    m = ctx.np.normal(size=(spec.size, n))
    ctx.log('parseMatrix %s, %d columns', spec.describe(), n)
    r = o.parseMatrix(m if ctx.chance(0.6) else ctx.pick([cs.DM(m), np.asfortranarray(m)]))
    ctx.check(isinstance(r, dict) and set(r) == set(spec.keys), 'keys of parseMatrix', got=list(r))
    for k in spec.keys:
        want = np.hstack([spec.read((k,), m[:, j]).full() for j in range(n)])
        got = cs.DM(r[k])
        ctx.check(got.shape == want.shape and np.array_equal(got.full(), want), 'parseMatrix entry %s' % k, got=got, want=want, decl=spec.describe())
        ctx.event('parsed', spec.d[k].describe(), n)


WORKLOADS = {'dm': (dm, 350, 7000), 'sx': (sx, 120, 2500), 'mx': (mx, 120, 2500), 'by_blocks': (by_blocks, 120, 2000), 'sizes': (sizes, 200, 4000), 'parse': (parse, 150, 3000)}
REQUIRED = {'view-read': 2000, 'view-write': 600, 'block': 300, 'filled': 200, 'rejected': 200, 'parsed': 150}
