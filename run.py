#!/usr/bin/env python
"""Entry point of every check.

  run.py check  <ID>             run the check of a property (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py replay <replay.json>    re-run the one case of a replay file
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = '/repo'


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0',
             PYTHONPATH=REPO + os.pathsep + HERE, PYTHONWARNINGS='ignore')
    return e


def import_repo():
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    import casadi_extras
    f = os.path.realpath(casadi_extras.__file__)
    if not f.startswith(REPO + '/'):
        print('INCONCLUSIVE: casadi_extras was imported from %s' % f)
        sys.exit(2)


def known_findings(prop):
    """Findings recorded (not repaired): key -> description."""
    res = {}
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)$', line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def main():
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    cmd = sys.argv[1]

    if cmd == 'worker':
        prop, tier, seed, shard, n, outdir, budget = sys.argv[2:9]
        import_repo()
        from rv import core
        core.worker(prop, tier, int(seed), int(shard), int(n), outdir, float(budget))
        return 0

    if cmd == 'replay':
        import_repo()
        from rv import core, props
        rec = json.load(open(sys.argv[2]))
        stats = core.Stats()
        fn = props.load(rec['property']).WORKLOADS[rec['workload']][0]
        v = core.run_case(rec['property'], rec['workload'], fn, rec['case'], rec['seed'], stats)
        print(json.dumps(v if v else dict(result='held', events=stats.events, known=stats.known), indent=1))
        return 1 if v else 0

    if cmd == 'case':       # development helper: run.py case C02 workload index [seed]
        import_repo()
        from rv import core, props
        stats = core.Stats()
        fn = props.load(sys.argv[2]).WORKLOADS[sys.argv[3]][0]
        v = core.run_case(sys.argv[2], sys.argv[3], fn, int(sys.argv[4]), int(sys.argv[5]) if len(sys.argv) > 5 else 1, stats)
        print(json.dumps(v if v else dict(result='held', events=stats.events, known=stats.known), indent=1))
        return 1 if v else 0

    assert cmd == 'check'
    prop = sys.argv[2]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[3:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()

    import_repo()
    from rv import props
    mod = props.load(prop)

    evdir = os.path.join(HERE, 'evidence')
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rpdir, f))

    n = int(os.environ.get('VERIF_WORKERS', str(min(8, os.cpu_count() or 1))))
    budget = float(os.environ.get('VERIF_BUDGET_S', '240' if tier == 'quick' else "600"))
    limit = budget + 150
    outdir = tempfile.mkdtemp(prefix='rv-%s-' % prop)
    procs = []
    try:
        for k in range(n):
            err = open(os.path.join(outdir, 'err%d' % k), 'w')
            procs.append((subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'run.py'), 'worker', prop, tier,
                                            str(seed), str(k), str(n), outdir, str(budget)],
                                           env=env(), stdout=err, stderr=err, cwd=outdir), err))
        results, crashed, trouble = [], [], []
        for k, (p, err) in enumerate(procs):
            try:
                rc = p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                cur = open(os.path.join(outdir, 'cur%d' % k)).read().strip()
                trouble.append('worker %d timed out in case %s' % (k, cur))
                continue
            err.close()
            res = os.path.join(outdir, 'res%d.json' % k)
            if rc == 0 and os.path.exists(res):
                results.append(json.load(open(res)))
            else:
                cur = ''
                if os.path.exists(os.path.join(outdir, 'cur%d' % k)):
                    cur = open(os.path.join(outdir, 'cur%d' % k)).read().strip()
                tail = open(os.path.join(outdir, 'err%d' % k)).read()[-1500:]
                if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL) and cur:
                    w, i = cur.split()
                    crashed.append(dict(property=prop, workload=w, case=int(i), seed=seed,
                                        what='interpreter killed by signal %d during the case' % -rc, history=[tail[-800:]]))
                else:
                    trouble.append('worker %d exited with %s in case %r: %s' % (k, rc, cur, tail))
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(outdir, ignore_errors=True)

    # ---- merge
    events, distinct, cases, notes, known, samples, violations = {}, {}, {}, {}, {}, [], []
    nontrivial = set()
    skipped = 0
    truncated = False
    for d in results:
        for k, v in d['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in d['distinct'].items():
            distinct.setdefault(k, set()).update(v)
        for k, v in d['cases'].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in d['notes'].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in d['known'].items():
            known.setdefault(k, v)
        nontrivial.update(d['nontrivial'])
        skipped += d['skipped']
        samples += d['samples']
        violations += d['violations']
        truncated = truncated or d['truncated']
    violations += crashed

    listed = known_findings(prop)
    for k, v in sorted(known.items()):
        if k in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[k]))
        else:
            violations.append(dict(property=prop, workload='?', case=-1, seed=seed,
                                   what='finding %s is not listed: %s' % (k, v), history=[]))

    violations.sort(key=lambda v: (v['workload'], v['case']))
    for j, v in enumerate(violations[:10]):
        path = os.path.join(rpdir, '%s-%d.json' % (prop, j))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        if j < 3:
            print('  %s case %s: %s' % (v['workload'], v['case'], v['what'][:700]))

    need = getattr(mod, 'REQUIRED', {})
    missing = [k for k, lo in need.items() if events.get(k, 0) < lo]
    coverage = dict(evaluations=sum(cases.values()), distinct_nontrivial=sum(len(v) for v in distinct.values()),
                    rule=mod.RULE, samples=samples[:6], events=events,
                    distinct_observations={k: len(v) for k, v in distinct.items()},
                    cases_by_workload=cases, nontrivial_cases=len(nontrivial), skipped_cases=skipped,
                    known_findings_observed=sorted(known), notes=notes, truncated_by_time_budget=truncated)
    evidence = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='exploration',
                    coverage=coverage, assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
                    wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    print('%s %s seed=%d: %d cases, %d events %s, %d distinct observations, %d skipped, %.1f s' % (
        prop, tier, seed, sum(cases.values()), sum(events.values()), json.dumps(events), coverage['distinct_nontrivial'],
        skipped, time.time() - t0))
    if violations:
        return 1
    if trouble:
        print('INCONCLUSIVE: ' + ' | '.join(trouble))
        return 2
    if missing or not events:
        print('INCONCLUSIVE: the deciding monitors observed too few events: %s' % missing)
        return 2
    print('HELD on everything observed')
    return 0


COMMON_ASSUMPTIONS = [
    'CasADi 3.6.7, NumPy and CPython compute what they document',
    'held on the executions counted here; nothing is claimed about inputs the workloads do not reach']

if __name__ == '__main__':
    sys.exit(main())
