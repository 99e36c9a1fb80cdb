"""Pickled, copied and saved structs come back unchanged."""
import copy
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import casadi as cs
import numpy as np
import casadi_extras as ce

from ..genstruct import Counter, build, compare, fresh_values, payload_for, gen_power, gen_spec
from ..refstruct import assign, impl_payload, impl_power

RULE = 'one distinct observation per (way of serialization, kind of object, declaration)'


class Item(object):
    """A struct object under observation and the model of its data."""
    def __init__(self, obj, spec, vals):
        self.obj, self.spec, self.vals = obj, spec, None if vals is None else np.array(vals)


def gen_item(ctx, specs):
    if specs and ctx.chance(0.4):
        spec = ctx.pick(specs)
    else:
        spec = gen_spec(ctx, ctx.pick([0, 1, 2]), limit=60)
        specs.append(spec)
    o = spec.obj.get('struct') if ctx.chance(0.5) else None
    if o is None:
        o = build(ctx, spec)
    k = ctx.r.random()
    if k < 0.7:
        vals = fresh_values(ctx, spec.size)
        if ctx.chance(0.1):
            vals[0] = ctx.pick([np.inf, -np.inf, 1e300, 5e-324])
        how = ctx.r.random()
        if how < 0.5:
            v = o(cs.DM(vals))
        elif how < 0.65:         # data with structural zeros
            vals[ctx.np.random(vals.size) < 0.5] = 0.
            v = o(cs.sparsify(cs.DM(vals)))
        else:
            v = o(0)
            v.cat[:] = cs.DM(vals)
            v = o(v.cat)
        return Item(v, spec, vals)
    return Item(o if k < 0.85 else o.struct, spec, None)


def observe(ctx, item, what):
    o, spec = item.obj, item.spec
    ctx.check(list(o.keys()) == spec.keys, what + ': keys', got=list(o.keys()), want=spec.keys)
    ctx.check(int(o.size) == spec.size, what + ': size', got=o.size, want=spec.size, decl=spec.describe())
    lab = list(o.labels())
    ctx.check(lab == list(item.labels), what + ': labels', got=lab, want=item.labels)
    can = [tuple(map(plain, c)) for c in o.canonicalIndices()]
    ctx.check(can == item.canon, what + ': canonical indices', got=can, want=item.canon)
    for i in (0, spec.size - 1, ctx.int(0, spec.size - 1)):
        ctx.check(tuple(map(plain, o.getCanonicalIndex(i))) == item.canon[i], what + ': lookup of %d' % i)
    if item.vals is None:
        v = o(cs.DM(list(range(spec.size))))
        vals = np.arange(spec.size, dtype=float)
    else:
        v, vals = o, item.vals
        c = o.cat
        ctx.check(isinstance(c, cs.DM) and c.shape == (spec.size, 1) and np.array_equal(c.full()[:, 0], vals), what + ': data', got=c, want=vals, decl=spec.describe(), history=ctx.trace)
    for _ in range(3):
        pw = gen_power(ctx, spec)
        compare(ctx, v[impl_power(pw, ce)], spec.read(pw, vals), what + ': read %s of %s' % (pw, spec.describe()))


def plain(x):
    return int(x) if isinstance(x, (int, np.integer)) else x


def prepare(item):
    item.labels = list(item.obj.labels())
    item.canon = [tuple(map(plain, c)) for c in item.obj.canonicalIndices()]


def write(ctx, item, cnt):
    """A random assignment, mirrored in the model (skipping C03's known finding)."""
    pw = gen_power(ctx, item.spec, True)
    pay = payload_for(ctx, item.spec, pw, cnt)
    new = assign(item.spec, pw, pay, item.vals)
    try:
        other = assign(item.spec, pw, pay, item.vals, 'abs')
    except Exception:
        return
    if not np.array_equal(new, other, equal_nan=True):
        return
    ctx.log('write %s <- %s', pw, pay)
    item.obj[impl_power(pw, ce)] = impl_payload(pay, ce)
    item.vals = new


def view(ctx):
    """Prefixes of numeric structs, and views of matrices, come back as such."""
    spec = gen_spec(ctx, 1, dict(empty=False, shapestruct=False), n=ctx.int(1, 3), limit=14)
    o = build(ctx, spec)
    kind = ctx.pick(['prefix', 'repeated', 'squared', 'product', 'squared_repeated'])
    n = spec.size
    if kind == 'prefix':
        k = ctx.int(1, 3)
        a = cs.DM(fresh_values(ctx, n * k))
        pre = ('n', ctx.int(0, k - 1))
        v = ce.struct([ce.entry('n', struct=o, repeat=k)])(a).prefix[pre]
        m = a[pre[1] * n:(pre[1] + 1) * n]
    else:
        other = gen_spec(ctx, 0, dict(empty=False), limit=6)
        k = {'repeated': ctx.int(1, 3), 'squared': n, 'product': other.size, 'squared_repeated': n * ctx.int(1, 3)}[kind]
        m = cs.reshape(cs.DM(fresh_values(ctx, n * k)), n, k)
        a = cs.DM(m)
        v = o.product(build(ctx, other), a) if kind == 'product' else getattr(o, kind)(a)

    def whole(v):
        x = v()
        return (cs.horzcat(*x) if isinstance(x, list) else cs.DM(x)).full()

    way = ctx.pick(WAYS[:-1])
    ctx.log('%s of %s by %s', kind, spec.describe(), way)
    rounds = ctx.int(1, 2)
    w = v
    for _ in range(rounds):
        w = move(w, way)
    what = '%s restored by %s' % (kind, way)
    ctx.check(np.array_equal(whole(w), m.full()), what, got=whole(w), want=m)
    if kind != 'prefix':
        c = w.cast()
        ctx.check(isinstance(c, cs.DM) and np.array_equal(c.full(), m.full()), what + ': cast', got=c, want=m)
        ctx.check(np.array_equal(cs.DM(w).full(), m.full()) and np.array_equal((cs.DM(1) * w).full(), m.full()), what + ': conversion to a matrix', got=cs.DM(w), want=m)
    # writes to one do not reach the other, also through a second write
    name = ctx.pick([e.name for e in spec.ents if e.unit] or [spec.ents[0].name])
    index = {'prefix': (name,), 'repeated': (0, name), 'squared': (), 'product': (), 'squared_repeated': (0,)}[kind]
    for first, second in ((w, v), (v, w)):
        before = whole(second)
        x = ctx.int(100000, 200000) + 0.5
        first[index] = spread(first[index], x) if kind in ('prefix', 'repeated') else x
        ctx.check(np.array_equal(whole(second), before), what + ': a write reached the other object', index=index)
        ctx.check(np.any(whole(first) == x), what + ': a write had no effect', index=index, got=whole(first))
        if kind != 'prefix':
            ctx.check(np.array_equal(cs.DM(first).full(), whole(first)), what + ': the matrix does not follow a write', index=index)
    ctx.event('view', kind, way, spec.describe())


def spread(x, c):
    return [spread(i, c) for i in x] if isinstance(x, list) else cs.DM(x.sparsity(), c)


WAYS = ['pickle0', 'pickle1', 'pickle2', 'pickle3', 'pickle4', 'pickle5', 'deepcopy', 'save']


def transfer(ctx, objs, way, tmp):
    """Serialize a collection, return the restored one."""
    if way == 'save':
        names = [os.path.join(tmp, 's%d' % i) for i in range(len(objs))]      # the files of a former round are overwritten
        if ctx.chance(0.3):
            for n in names:
                ctx.pick(objs).save(n)
        for n, o in zip(names, objs):
            o.save(n)
        res = [None] * len(objs)
        for i in ctx.r.sample(range(len(objs)), len(objs)):
            res[i] = ce.struct_load(names[i])
        return res
    shape = ctx.pick(['list', 'dict', 'tuple', 'nested', 'single'])
    if shape == 'single':
        return [move(o, way) for o in objs]
    c = {'list': list(objs), 'tuple': tuple(objs), 'dict': {str(i): o for i, o in enumerate(objs)},
         'nested': [{'a': [o], 'b': (i, o)} for i, o in enumerate(objs)]}[shape]
    r = move(c, way)
    if shape == 'dict':
        return [r[str(i)] for i in range(len(objs))]
    if shape == 'nested':
        for x in r:
            ctx.check(x['a'][0] is x['b'][1], 'identity within a collection')
        return [x['a'][0] for x in r]
    return list(r)


def move(c, way):
    if way == 'deepcopy':
        return copy.deepcopy(c)
    return pickle.loads(pickle.dumps(c, int(way[-1])))


def saveable(o):
    return hasattr(o, 'save')


def collection(ctx):
    specs = []
    items = [gen_item(ctx, specs) for _ in range(ctx.pick([1, 1, 2, 3, 4]))]
    for it in items:
        prepare(it)
        ctx.log('%s of %s', type(it.obj).__name__, it.spec.describe())
    cnt = Counter()
    tmp = tempfile.mkdtemp(prefix='rv-c10-')
    try:
        for round_ in range(ctx.int(1, 3)):
            way = ctx.pick(WAYS)
            if way == 'save' and not all(saveable(i.obj) for i in items):
                way = 'deepcopy'
            ctx.log('%s of %d structs', way, len(items))
            objs = transfer(ctx, [i.obj for i in items], way, tmp)
            back = []
            for it, o in zip(items, objs):
                n = Item(o, it.spec, it.vals)
                n.labels, n.canon = it.labels, it.canon
                back.append(n)
                ctx.event('restored', way, type(it.obj).__name__, it.spec.describe())
            for n in back:
                observe(ctx, n, 'restored by ' + way)
            for n in items:
                observe(ctx, n, 'original after ' + way)
            # independence: write to some on both sides, look at all
            for n in ctx.r.sample(back + items, min(3, 2 * len(back))):
                if n.vals is not None:
                    write(ctx, n, cnt)
            for n in back:
                observe(ctx, n, 'restored by %s, after writes' % way)
            for n in items:
                observe(ctx, n, 'original after %s, after writes' % way)
            # restored structs work together with the originals
            for n, it in zip(back, items):
                if n.vals is not None and it.vals is not None:
                    v = it.obj(n.obj)
                    ctx.check(np.array_equal(v.cat.full()[:, 0], n.vals, equal_nan=True), 'struct made of a restored one')
            ctx.event('independent', way, len(items))
            if ctx.chance(0.6):
                items = back          # serialize the restored ones again
            else:
                items = [ctx.pick(p) for p in zip(items, back)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SCRIPT = '''
import json, pickle, sys
import casadi_extras as ce
res = []
for kind, name in json.load(open(sys.argv[1])):
    o = pickle.load(open(name, 'rb')) if kind == 'pickle' else ce.struct_load(name)
    d = dict(keys=list(o.keys()), size=int(o.size), labels=list(o.labels()))
    if hasattr(o, 'cat'):
        d['cat'] = [float(x) for x in o.cat.full()[:, 0]]
        o[o.keys()[0]] = 7
        d['after'] = [float(x) for x in o.cat.full()[:, 0]]
    res.append(d)
json.dump(res, open(sys.argv[2], 'w'))
'''


def cross_process(ctx):
    """Loading in another interpreter, in another order."""
    specs, items, files = [], [gen_item(ctx, []) for _ in range(12)], []
    tmp = tempfile.mkdtemp(prefix='rv-c10-')
    try:
        for i, it in enumerate(items):
            prepare(it)
            name = os.path.join(tmp, 's%d' % i)
            if saveable(it.obj) and ctx.chance(0.5):
                it.obj.save(name)
                files.append(('load', name))
            else:
                with open(name, 'wb') as f:
                    pickle.dump(it.obj, f, ctx.int(0, 5))
                files.append(('pickle', name))
        order = ctx.r.sample(range(len(items)), len(items))
        job, out = os.path.join(tmp, 'job'), os.path.join(tmp, 'out')
        with open(job, 'w') as f:
            json.dump([files[i] for i in order], f)
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', SCRIPT, job, out], capture_output=True, text=True, timeout=100)
        ctx.check(p.returncode == 0, 'loading in another process', err=p.stderr[-900:])
        for i, d in zip(order, json.load(open(out))):
            it = items[i]
            ctx.check(d['keys'] == it.spec.keys and d['size'] == it.spec.size and d['labels'] == it.labels, 'struct loaded in another process', got=d, decl=it.spec.describe())
            if it.vals is not None:
                ctx.check(d['cat'] == [float(x) for x in it.vals], 'data loaded in another process', got=d['cat'], want=it.vals)
                new = it.vals.copy()
                k = it.spec.keys[0]
                new[[p for c, ps in it.spec.map.items() if c[0] == k for p in ps]] = 7
                ctx.check(d['after'] == [float(x) for x in new], 'write in another process', got=d['after'], want=new)
            ctx.event('loaded-elsewhere', files[i][0], it.spec.describe())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


WORKLOADS = {'cross_process': (cross_process, 8, 80), 'collection': (collection, 500, 10000), 'view': (view, 200, 4000)}
REQUIRED = {'loaded-elsewhere': 80, 'restored': 1500, 'independent': 700, 'view': 150}
ASSUMPTIONS = ['symbolic structs are not pickled: CasADi symbols have no identity across processes']
