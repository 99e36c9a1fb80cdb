"""Case context, verdicts and the per-shard worker loop.

A *case* is one execution of a workload: it is fully determined by
(VERIF_SEED, property, workload, case index).  While it runs, monitors report
*events* (an observation that was compared with an oracle) to the Ctx.
"""
import hashlib
import json
import os
import random
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
    """The oracle refuted the property on an observed execution."""


class Skip(Exception):
    """The generated case is outside the quantifier (counted, decides nothing)."""


class Harness(Exception):
    """Defect of the harness itself; never a verdict."""


def stable_hash(*parts):
    return int.from_bytes(hashlib.sha256('\x1f'.join(map(str, parts)).encode()).digest()[:8], 'big')


class Ctx(object):
    def __init__(self, prop, workload, index, seed, stats):
        self.prop, self.workload, self.index, self.seed = prop, workload, index, seed
        h = stable_hash(seed, prop, workload, index)
        self.r = random.Random(h)
        self.np = np.random.default_rng(h)
        self.stats = stats
        self.trace = []          # human-readable history of this case
        self.nontrivial = False

    # --- observations -------------------------------------------------
    def event(self, kind, *sig):
        """One oracle evaluation.  sig describes the state/shape observed."""
        self.stats.event(kind, sig)
        if sig:
            self.nontrivial = True

    def log(self, fmt, *args):
        if len(self.trace) < 400:
            self.trace.append((fmt % args) if args else str(fmt))

    # --- verdicts -----------------------------------------------------
    def fail(self, msg, **detail):
        d = '; '.join('%s=%s' % (k, short(v)) for k, v in detail.items())
        raise Violation(msg + (' [' + d + ']' if d else ''))

    def check(self, cond, msg, **detail):
        if not cond:
            self.fail(msg, **detail)

    def known(self, key, msg):
        self.stats.known.setdefault(key, msg)

    # --- random helpers -----------------------------------------------
    def chance(self, p):
        return self.r.random() < p

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def int(self, a, b):
        return self.r.randint(a, b)

    def floats(self, *shape, scale=1.0):
        """Random floats; now and then exact zeros, ones, repeated or integer values."""
        mode = self.r.random()
        a = self.np.normal(size=shape) * scale
        if mode < 0.15:
            a = np.round(a * 2)
        elif mode < 0.2:
            a = np.zeros(shape)
        elif mode < 0.25:
            a = np.full(shape, a.flat[0] if a.size else 0.)
        return a


def short(v, n=700):
    try:
        s = repr(v) if not isinstance(v, str) else v
    except Exception as e:      # repr of API objects may fail on broken code
        s = '<unprintable %s: %s>' % (type(v).__name__, e)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


class Stats(object):
    def __init__(self):
        self.events = {}
        self.distinct = {}
        self.cases = {}
        self.nontrivial_cases = set()
        self.skipped = 0
        self.known = {}
        self.samples = []
        self.violations = []
        self.notes = {}

    def event(self, kind, sig):
        self.events[kind] = self.events.get(kind, 0) + 1
        d = self.distinct.setdefault(kind, set())
        if len(d) < 200000:
            d.add(stable_hash(*sig))

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def to_json(self):
        return dict(events=self.events, distinct={k: sorted(v) for k, v in self.distinct.items()},
                    cases=self.cases, nontrivial=sorted(self.nontrivial_cases), skipped=self.skipped,
                    known=self.known, samples=self.samples, violations=self.violations, notes=self.notes)


def run_case(prop, workload, fn, index, seed, stats):
    """Run one case; returns the violation record or None."""
    ctx = Ctx(prop, workload, index, seed, stats)
    record = None
    try:
        fn(ctx)
    except Skip:
        stats.skipped += 1
    except Violation as e:
        record = str(e)
    except Harness:
        raise
    except Exception as e:
        # The workload uses the API within its contract, so an exception on the way is a refutation.
        c = e
        while c.__cause__ is not None:
            c = c.__cause__
        record = 'unexpected %s on valid use: %s | %s' % (
            type(c).__name__, short(str(c), 500), short(traceback.format_exc()[-900:], 900))
    stats.cases[workload] = stats.cases.get(workload, 0) + 1
    if ctx.nontrivial:
        stats.nontrivial_cases.add(stable_hash(prop, workload, index))
    if len(stats.samples) < 3 and ctx.nontrivial and record is None and index % 7 == 0:
        stats.samples.append(dict(workload=workload, case=index, history=[short(t, 240) for t in ctx.trace[:8]]))
    if record is not None:
        return dict(property=prop, workload=workload, case=index, seed=seed, what=record,
                    history=[short(t, 600) for t in ctx.trace])
    return None


QUICK = 2     # the counts of the quick tier in the workloads are multiplied by this


def worker(prop, tier, seed, shard, nshards, outdir, budget_s):
    from . import props
    mod = props.load(prop)
    stats = Stats()
    t0 = time.time()
    cur = os.open(os.path.join(outdir, 'cur%d' % shard), os.O_CREAT | os.O_RDWR)
    truncated = False
    for name, (fn, nq, nt) in mod.WORKLOADS.items():
        n = min(QUICK * nq, nt) if tier == 'quick' else nt
        bad = 0
        for i in range(shard, n, nshards):
            if time.time() - t0 > budget_s:
                truncated = True
                break
            os.pwrite(cur, ('%s %d' % (name, i)).ljust(80).encode(), 0)
            v = run_case(prop, name, fn, i, seed, stats)
            if v is not None:
                stats.violations.append(v)
                bad += 1
                if bad >= 2:
                    break
        if len(stats.violations) >= 4:
            break
    d = stats.to_json()
    d['truncated'] = truncated
    d['wall'] = time.time() - t0
    os.pwrite(cur, b'done'.ljust(80), 0)
    with open(os.path.join(outdir, 'res%d.json' % shard), 'w') as f:
        json.dump(d, f)
