#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.

Builds the symbolic executor, compiles the program in /repo to LLVM IR together with the harness, executes the
harness entry points of the property symbolically and lets z3 decide every branch and assertion. Every
counterexample is replayed in the natively compiled program before it is reported.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not give an answer."""
import argparse, concurrent.futures, fnmatch, json, os, sys, threading, time
import jscheck, vplib
from vplib import CheckError
import props

HERE = vplib.VERIF


def known(prop):
    try:
        f = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except FileNotFoundError:
        return []
    return [x for x in f['findings'] if x['property'] == prop and x['status'] == 'finding']


def selected(label, only):
    return not only or any(fnmatch.fnmatchcase(label, p) for p in only)


def listed(kn, j, label):
    return [x for x in kn if x['label'] == label and x.get('job', j['entry']) == j['entry']]


def confirmed(label, lines):
    vs = [l[2:] for l in lines if l.startswith('V ')]
    return ('no-panic' in vs) if label.startswith('no-panic') else (label in vs)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--no-build', action='store_true')
    ap.add_argument('--job', help='run only jobs whose text contains this')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.property
    if prop not in props.PROPS:
        print('unknown property', prop)
        return 2
    spec = props.PROPS[prop]
    jobs = spec.jobs(a.tier)
    if a.job:
        jobs = [j for j in jobs if a.job in j['text']]
    budget = 700 if a.tier == 'quick' else 6 * 3600
    ev = os.path.join(HERE, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    if spec.js:
        with vplib.Lock():
            return jscheck.run(prop, spec, a.tier, seed, budget, t0, ev, a.job)
    with vplib.Lock():
        entries = sorted(set(j['entry'] for j in jobs))
        if not a.no_build:
            vplib.build(entries)
        tb = time.time() - t0
        out = os.path.join(vplib.BUILD, 'out')
        os.makedirs(out, exist_ok=True)
        stop, kn = threading.Event(), known(prop)
        samples = 3 if a.tier == 'quick' else 12

        def one(ix_job):
            i, j = ix_job
            left = budget - (time.time() - t0)
            if left < 5 or stop.is_set():
                return j, None
            r = vplib.run_vpe(j, left, samples, seed + i, os.path.join(out, '%s-%d.json' % (prop, i)), stop)
            if r and not stop.is_set():
                # one confirmed violation is an answer: the other jobs need not finish
                new = [c for c in r['cexs'] if not listed(kn, j, c['label'])]
                if any(confirmed(c['label'], lines) for c, lines in zip(new, vplib.native([(j['entry'], j['params'], c['inputs']) for c in new]))):
                    stop.set()
            return j, r

        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, enumerate(jobs)))
        return report(prop, spec, a.tier, seed, res, t0, tb, ev)


def report(prop, spec, tier, seed, res, t0, tb, ev):
    errors, incomplete, violations, findings, notes = [], [], [], [], []
    kn = known(prop)
    tot = dict(paths=0, forks=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, exact_queries=0, solver_s=0.0)
    asserts, reach, fns, joblog, samples, cases = {}, {}, set(), [], [], []
    max_q = 0.0
    for j, r in res:
        if r is None:
            incomplete.append('%s: no result (time limit, or stopped after a violation)' % j['text'])
            continue
        for k in tot:
            tot[k] += r[k]
        max_q = max(max_q, r['max_query_s'])
        for l, (s, y) in r['asserts'].items():
            x = asserts.setdefault(l, [0, 0])
            x[0] += s
            x[1] += y
        for l, n in r['reach'].items():
            reach[l] = reach.get(l, 0) + n
        fns.update(r['functions'])
        joblog.append({'job': j['text'], 'paths': r['paths'], 'steps': r['steps'], 'ends': r['ends'], 'reach': r['reach'],
                       'assertions': {l: sum(v) for l, v in r['asserts'].items()}, 'queries': r['queries'],
                       'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'undecided': len(r['inconclusive'])})
        timeout = [e for e in r['errors'] if e.startswith('time limit') or e.startswith('path limit')]
        for e in r['errors']:
            (incomplete if e in timeout else errors).append('%s: %s' % (j['text'], e))
        for e in sorted(set(r['inconclusive'])):
            incomplete.append('%s: solver gave no answer: %s' % (j['text'], e))
        if not r['cexs'] and not r['errors'] and not r['inconclusive']:
            for l in j['reach']:
                if not r['reach'].get(l):
                    errors.append('%s: vacuous, no path reaches "%s"' % (j['text'], l))
            for l in j['expect']:
                if not any(fnmatch.fnmatchcase(x, l) for x in r['asserts']):
                    errors.append('%s: vacuous, assertion "%s" never evaluated' % (j['text'], l))
        for c in r['cexs']:
            cases.append(('cex', j, c['label'], c['inputs'], c['names'], None))
        for s in r['samples']:
            cases.append(('sample', j, None, s['inputs'], None, s))
    nat = vplib.native([(c[1]['entry'], c[1]['params'], c[3]) for c in cases])
    agree = 0
    seen = set()
    rdir = os.path.join(HERE, 'replays')
    for (kind, j, label, inputs, names, s), lines in zip(cases, nat):
        vs = [l[2:] for l in lines if l.startswith('V ')]
        if kind == 'sample':
            tr = [l for l in lines if l[:2] in ('R ', 'L ')]
            end = [l[2:] for l in lines if l.startswith('E ')]
            hit = [v for v in vs if v != 'no-panic' and selected(v, j.get('only'))]
            if tr == s['trace'] and end == [s['end']] and not hit:
                agree += 1
                if len(samples) < 6:
                    samples.append({'job': j['text'], 'inputs': inputs, 'end': s['end'], 'trace': s['trace']})
            else:
                errors.append('%s: native run differs from the symbolic path: symbolic %s %s, native %s; inputs %s'
                              % (j['text'], s['trace'], s['end'], lines, inputs))
            continue
        if not confirmed(label, lines):
            errors.append('%s: counterexample to %s does not reproduce natively: %s; inputs %s'
                          % (j['text'], label, lines, list(zip(names, inputs))))
            continue
        f = listed(kn, j, label)
        if f:
            if f[0]['id'] not in seen:
                seen.add(f[0]['id'])
                findings.append('KNOWN-FINDING: property=%s %s' % (prop, f[0]['what']))
            continue
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%d.json' % (prop, len(violations)))
        json.dump({'property': prop, 'entry': j['entry'], 'params': j['params'], 'label': label, 'inputs': inputs,
                   'names': names, 'native': lines, 'how': 'python3 %s/replay.py %s' % (HERE, p)}, open(p, 'w'), indent=1)
        violations.append((label, p))
    obligations = sum(sum(v) for v in asserts.values())
    cov = {
        'states': tot['paths'] + tot['forks'], 'transitions': tot['steps'],
        'traces_validated_against_impl': agree,
        'samples': samples or [{'note': 'no sampled path'}],
        'paths': tot['paths'], 'assertions_decided': obligations,
        'assertions_by_label': {k: {'by_solver': v[0], 'by_rewriting': v[1]} for k, v in sorted(asserts.items())},
        'reached': reach, 'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'],
        'exact_queries': tot['exact_queries'], 'solver_s': round(tot['solver_s'], 3), 'max_query_s': max_q,
        'bounds': spec.bounds, 'outside_bounds': spec.outside, 'incomplete': incomplete,
        'functions_encoded': sorted(f for f in fns if 'mplx_rewards' in f or 'sokoban' in f or f.startswith('_<rewards')
                                    or f.startswith('rewards') or f.startswith('h_')),
        'functions_total': len(fns), 'jobs': joblog, 'build_s': round(tb, 1),
        'exhaustive': not incomplete and not errors,
    }
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
               'assumptions': props.ASSUMPTIONS + spec.assumptions, 'wall_s': round(time.time() - t0, 1),
               'violations': len(violations)}, open(ev, 'w'), indent=1)
    print('%s [%s]: %d jobs, %d paths, %d assertions decided, %d queries, solver %.1f s, %d witnesses replayed natively, %.0f s (build %.0f s)'
          % (prop, tier, len(res), tot['paths'], obligations, tot['queries'], tot['solver_s'], agree, time.time() - t0, tb))
    for i in incomplete[:10]:
        print('INCOMPLETE:', i)
    for f in findings:
        print(f)
    for e in errors[:10]:
        print('ERROR:', e[:1500])
    if violations:
        for l, p in violations[:5]:
            print('violated: %s' % l)
        print('VIOLATION property=%s replay=%s' % (prop, violations[0][1]))
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR:', e)
        sys.exit(2)
