"""Assigning a struct selection changes exactly the addressed elements."""
import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import Counter, build, compare, evaluate, flat_result, fresh_values, payload_for, gen_power, gen_spec, power_kind, same, shape_of, spice
from ..refstruct import Fn, Pay, Reject, assign, impl_payload, impl_power

RULE = 'one distinct observation per (value type, kind of power index, shape of the selection, kind of payload)'
KNOWN = 'partial-list-assignment'


class Inst(object):
    """One struct under observation together with the model's values."""
    def __init__(self, obj, vals, mtype, sym=None, at=None):
        self.obj, self.vals, self.mtype, self.sym, self.at = obj, np.array(vals), mtype, sym, at

    def numbers(self, nested):
        return nested if self.sym is None else evaluate(nested, self.sym, self.at)

    def cat(self):
        return cs.DM(self.numbers(self.obj.cat)).full()

    def wrap(self, num):
        """A symbolic payload with the value num."""
        t = cs.SX if self.mtype == 'SX' else cs.MX
        s = self.sym
        j = int(num.numel()) % s.numel()
        return t(num) + (s[j] - float(self.at[j])) * cs.DM.ones(num.sparsity())


class Source(object):
    """The vector from which structs were instantiated; it must stay as it was."""
    def __init__(self, vector):
        self.cat = vector


def make(ctx, o, spec, mtype):
    """One or two structs holding the same vector, and that vector."""
    vals = fresh_values(ctx, spec.size)
    sym = None
    if mtype == 'DM':
        if ctx.chance(0.1) and vals.size:
            spice(ctx, vals)
        src = cs.DM(vals)
        mk = o
    else:
        t = cs.SX if mtype == 'SX' else cs.MX
        sym = t.sym('w', spec.size)
        k = ctx.int(0, 2)
        src = t(sym) if k == 0 else sym * 1 if k == 1 else t(cs.DM(vals))
        cls = ce.struct_MX_mutable if mtype == 'MX' else ce.struct_SX
        mk = (lambda d: cls(o, data=d)) if k == 1 else o
    made = [Inst(mk(src), vals, mtype, sym, vals) for _ in range(ctx.pick([1, 1, 2]))]
    if len(made) > 1:
        ctx.event('twins', mtype)
    keep = Inst(None, vals, mtype, sym, vals)
    keep.obj = Source(src)
    return made, keep


def kind_of(pay):
    if isinstance(pay, Pay):
        return type(pay.obj).__name__
    if isinstance(pay, (list, tuple)):
        return type(pay).__name__ + '<' + (kind_of(pay[0]) if pay else '') + '>'
    if isinstance(pay, dict):
        return 'dict<' + ','.join(kind_of(v) for v in list(pay.values())[:1]) + '>'
    return 'repeated<' + kind_of(pay.e) + '>'


def step(ctx, inst, spec, cnt):
    pw = gen_power(ctx, spec, setting=True)
    wrap = inst.wrap if inst.sym is not None else None
    pay = payload_for(ctx, spec, pw, cnt, inst.mtype, wrap)
    if isinstance(pw[0], set) and isinstance(pay, dict) and ctx.chance(0.5):
        # keys outside the selected set are ignored
        for k in spec.keys:
            if k not in pw[0] and ctx.chance(0.5):
                v = cnt.arr()
                pay[k] = Pay(v, v)
    ctx.log('%s[%s] = %s', inst.mtype, pw, pay)
    pos = absolute = None
    try:
        pos = assign(spec, pw, pay, inst.vals, 'pos')
    except Reject as e:
        from ..core import Harness
        raise Harness('generated payload rejected by the model: %s %s %s %s' % (e, spec.describe(), pw, pay))
    try:
        absolute = assign(spec, pw, pay, inst.vals, 'abs')
    except Reject:
        pass
    coincide = absolute is not None and same(pos, absolute)

    try:
        inst.obj[impl_power(pw, ce)] = impl_payload(pay, ce)
    except Exception:
        if absolute is None:
            # known finding; the part assigned before the error is unspecified: resynchronise
            ctx.known(KNOWN, 'list assigned to a partial selection of repeats is rejected')
            inst.vals = inst.cat()[:, 0]
            ctx.event('known-rejected', power_kind(pw))
            return pw
        raise
    got = inst.cat()
    what = '%s[%s] = %s on %s' % (inst.mtype, pw, pay, spec.describe())
    ctx.check(got.shape == (spec.size, 1), 'size after ' + what, got=got.shape)
    got = got[:, 0]
    if same(got, pos):
        inst.vals = pos
    elif absolute is not None and not coincide and same(got, absolute):
        ctx.known(KNOWN, 'list assigned to a partial selection of repeats is distributed by repeat index')
        inst.vals = absolute
    else:
        bad = [k for k in range(spec.size) if not same(got[k], pos[k])]
        ctx.fail('values after ' + what, positions=bad, got=got[bad].tolist(), want=pos[bad].tolist(),
                 before=inst.vals[bad].tolist(), history=ctx.trace[:-1])
    ctx.event('assign-' + inst.mtype, power_kind(pw), shape_of(spec.select(pw, raw=True)), kind_of(pay))
    return pw


def look(ctx, inst, spec, pw=None):
    pw = gen_power(ctx, spec) if pw is None else pw
    want = spec.read(pw, inst.vals)
    got = inst.numbers(inst.obj[impl_power(pw, ce)])
    compare(ctx, got, want, 'read %s after assignments to %s (%s)' % (pw, spec.describe(), inst.mtype))
    ctx.event('read-after', inst.mtype, power_kind(pw))


def history(ctx, mtypes, n):
    spec = gen_spec(ctx, depth=ctx.pick([0, 1, 2]), limit=90)
    ctx.log('declare %s', spec.describe())
    o = build(ctx, spec, ctx.pick(['struct', 'struct', 'symSX', 'symMX']))
    insts, sources = [], []
    for _ in range(ctx.int(1, 3)):
        made, src = make(ctx, o, spec, ctx.pick(mtypes))
        insts += made
        sources.append(src)
    cnt = Counter(ctx=ctx if mtypes == ['DM'] and ctx.chance(0.15) else None)
    for _ in range(n):
        inst = ctx.pick(insts)
        pw = step(ctx, inst, spec, cnt)
        if not any(isinstance(p, Fn) for p in pw) and ctx.chance(0.6):
            look(ctx, inst, spec, pw)
        if ctx.chance(0.6):
            look(ctx, inst, spec)
        for other in insts:
            if other is not inst and (inst.mtype == 'DM' or ctx.chance(0.4)):
                ctx.check(same(other.cat()[:, 0], other.vals), 'another struct of the same structure changed',
                          decl=spec.describe(), history=ctx.trace)
    for src in sources:
        ctx.check(same(src.cat()[:, 0], src.vals), 'the vector from which a struct was instantiated changed by an assignment to the struct',
                  decl=spec.describe(), got=src.cat(), want=src.vals, history=ctx.trace)
    for inst in insts:
        for name in spec.keys:
            look(ctx, inst, spec, (name,))
        ctx.check(same(inst.cat()[:, 0], inst.vals), 'struct changed by a read', decl=spec.describe(), history=ctx.trace)


def dm(ctx):
    history(ctx, ['DM'], ctx.int(4, 14))


def sx(ctx):
    history(ctx, ['SX', 'SX', 'DM'], ctx.int(3, 7))


def mx(ctx):
    history(ctx, ['MX', 'MX', 'DM'], ctx.int(3, 7))


def elements(ctx):
    """Systematic: write every position through its own index, everything else stays."""
    spec = gen_spec(ctx, depth=ctx.pick([1, 2]), limit=50)
    ctx.log('declare %s', spec.describe())
    o = build(ctx, spec)
    [inst, *_], _ = make(ctx, o, spec, 'DM')
    cnt = Counter()
    for canon, e in spec.leaves:
        for r, c in e.stored:
            for idx in ((r + c * e.nr,), (r, c)):
                x = cnt.arr()
                inst.obj[canon + idx] = x
                inst.vals = assign(spec, canon + idx, Pay(x, x), inst.vals)
                ctx.check(same(inst.cat()[:, 0], inst.vals), 'element assignment %s' % (canon + idx,),
                          got=inst.cat()[:, 0], want=inst.vals, decl=spec.describe())
        ctx.event('element', e.describe())


def partial_lists(ctx):
    """Lists assigned to partial or reordered selections of repeats (observes the known finding)."""
    n = ctx.int(2, 5)
    o = ce.struct([ce.entry('x', repeat=n, shape=ctx.int(1, 3)), ce.entry('y', repeat=[n, 2])])
    from ..refstruct import Ent, Spec
    d = o.i['x', 0].numel()
    spec = Spec([Ent('x', [n], d, 1), Ent('y', [n, 2])])
    inst = Inst(o(cs.DM(fresh_values(ctx, spec.size))), np.zeros(spec.size), 'DM')
    inst.vals = inst.cat()[:, 0]
    cnt = Counter()
    from ..genstruct import gen_repeat_index
    import rv.genstruct as g
    for _ in range(4):
        idx = gen_repeat_index(ctx, n)
        pw = (ctx.pick(['x', 'y']), idx)
        save = g.gen_power
        try:
            globals()['gen_power'] = lambda *a, **k: pw
            step(ctx, inst, spec, cnt)
        finally:
            globals()['gen_power'] = save


WORKLOADS = {'dm': (dm, 700, 16000), 'sx': (sx, 250, 5000), 'mx': (mx, 250, 5000), 'elements': (elements, 80, 1500),
             'partial_lists': (partial_lists, 60, 600)}
REQUIRED = {'twins': 300, 'assign-DM': 1500, 'assign-SX': 200, 'assign-MX': 200, 'read-after': 800, 'element': 80}
