"""Decides the property of the JavaScript client: jsx/ executes the TypeScript in /repo concolically, z3 decides."""
import json, os, subprocess, time
import props, vplib
from vplib import CheckError

HERE = vplib.VERIF


def run(prop, spec, tier, seed, budget, t0, ev, only=None):
    out = os.path.join(vplib.BUILD, 'out')
    os.makedirs(out, exist_ok=True)
    f = os.path.join(out, prop + '-js.json')
    if os.path.exists(f):
        os.remove(f)
    cmd = ['node', os.path.join(HERE, 'jsx', 'main.mjs'), vplib.REPO, f, '--seconds', str(int(budget - (time.time() - t0) - 20)),
           '--paths', '5000' if tier == 'quick' else '200000'] + (['--job', only] if only else []) + (['--deep'] if tier != 'quick' else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget)
    except subprocess.TimeoutExpired:
        raise CheckError('the JavaScript run did not finish')
    if p.returncode or not os.path.exists(f):
        raise CheckError('the JavaScript run failed: ' + (p.stderr or p.stdout)[-2000:])
    d = json.load(open(f))
    errors, incomplete, violations, samples = [], [], [], []
    tot = dict(paths=0, forks=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    asserts, reach, joblog, agree, max_q = {}, {}, [], 0, 0.0
    rdir = os.path.join(HERE, 'replays')
    for j in d['jobs']:
        for k in tot:
            tot[k] += j[k]
        max_q = max(max_q, j['max_query_s'])
        agree += j['validated']
        for l, a in j['asserts'].items():
            x = asserts.setdefault(l, {'by_solver': 0, 'by_rewriting': 0})
            for k in x:
                x[k] += a[k]
        for l, n in j['reach'].items():
            reach[l] = reach.get(l, 0) + n
        new = [c for c in j['cexs'] if c['confirmed']]
        errors += ['%s: counterexample to %s does not reproduce: %s' % (j['name'], c['label'], c['inputs']) for c in j['cexs'] if not c['confirmed']]
        if not new:
            errors += j['errors']
        incomplete += j['incomplete']
        if len(samples) < 6:
            samples += j['samples'][:1]
        joblog.append({k: j[k] for k in ('name', 'paths', 'ends', 'reach', 'queries', 'solver_s', 'wall_s')})
        for c in new:
            os.makedirs(rdir, exist_ok=True)
            r = os.path.join(rdir, '%s-%d.json' % (prop, len(violations)))
            json.dump({'property': prop, 'js': True, 'job': j['name'], 'label': c['label'], 'inputs': c['inputs'], 'native': c['native'],
                       'why': c.get('why'), 'how': 'python3 %s/replay.py %s' % (HERE, r)}, open(r, 'w'), indent=1)
            violations.append((j['name'] + ' ' + c['label'], r))
    n = sum(sum(v.values()) for v in asserts.values())
    cov = {'states': tot['paths'] + tot['forks'], 'transitions': tot['steps'], 'traces_validated_against_impl': agree,
           'samples': samples or [{'note': 'no path'}], 'paths': tot['paths'], 'assertions_decided': n, 'assertions_by_label': asserts, 'reached': reach,
           'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 3),
           'max_query_s': max_q, 'bounds': spec.bounds, 'outside_bounds': spec.outside, 'incomplete': incomplete,
           'functions_encoded': sorted(d['files']), 'jobs': joblog, 'exhaustive': not incomplete and not errors}
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': spec.assumptions,
               'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}, open(ev, 'w'), indent=1)
    print('%s [%s]: %d jobs, %d paths, %d assertions decided, %d queries, solver %.1f s, %d witnesses replayed in the client as shipped, %.0f s'
          % (prop, tier, len(d['jobs']), tot['paths'], n, tot['queries'], tot['solver_s'], agree, time.time() - t0))
    for i in incomplete[:10]:
        print('INCOMPLETE:', i)
    for e in errors[:10]:
        print('ERROR:', e[:1500])
    if violations:
        for l, _ in violations[:5]:
            print('violated: %s' % l)
        print('VIOLATION property=%s replay=%s' % (prop, violations[0][1]))
        return 1
    return 2 if errors else 0
