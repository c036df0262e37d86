#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--case NAME] [--jobs N] [--keep-going]"""
import os
import sys
if 'VERIF_CHECK_ENV' not in os.environ:      # fixed hash seed, no bytecode in /repo
    env = dict(os.environ, VERIF_CHECK_ENV='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    py = '/opt/veriftools/pyvenv/bin/python3'
    os.execve(py if os.path.exists(py) else sys.executable,
              [py] + [os.path.abspath(__file__)] + sys.argv[1:], env)
import argparse
import json
import resource
import site
import subprocess
import time
import warnings
warnings.simplefilter('ignore')

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
site.addsitedir('/opt/venv/lib/python3.12/site-packages')
sys.path = [p for p in sys.path if os.path.abspath(p or '.') not in (VERIF,)]
sys.path[:0] = [REPO, VERIF, '/opt/venv/lib/python3.12/site-packages']      # the repository's own dependencies
sys.setrecursionlimit(6000)

BUDGET = {'quick': 420.0, 'thorough': 3000.0}


def known(prop):
    out = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS')) as fh:
            for line in fh:
                if line.startswith('{'):         # an open finding; "fixed: ..." lines suppress nothing
                    d = json.loads(line)
                    if d['property'] == prop:
                        out.append(d)
    except IOError:
        pass
    return out


def matches(k, v):
    """a known finding is named where the harness makes the assertion, for the inputs concerned by it"""
    return k['finding'] == v.get('finding')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--bounds', help='JSON overriding bounds')
    a = ap.parse_args()
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from sx import run, instrument
    ses = run.Session(a.prop, a.jobs)
    sel = [i for i, c in enumerate(ses.cases) if not a.case or c[0] in a.case.split(',')]
    ses.start()
    budget = float(os.environ.get('VERIF_BUDGET') or BUDGET[a.tier])
    deadline = t0 + budget
    kf = known(a.prop)
    hits = {}
    found, seen_known, violations = [], set(), []
    replay_path = os.path.join(VERIF, 'evidence', a.prop + '.replay.json')

    for i in range(1, 10):
        for p in (replay_path, replay_path.replace('.json', '.%d.json' % i)):
            if os.path.exists(p):
                os.unlink(p)

    def on_viol(v):
        for i, k in enumerate(kf):
            if matches(k, v):
                if i not in seen_known:
                    seen_known.add(i)
                    hits[k['finding']] = dict(case=v['case'], label=v['label'], input=v['env'])
                return False
        key = (v['case'], v['label'])
        if key in [(x['case'], x['label']) for x in violations]:
            return False
        v['property'] = a.prop
        os.makedirs(os.path.dirname(replay_path), exist_ok=True)
        p = replay_path if not violations else replay_path.replace('.json', '.%d.json' % len(violations))
        with open(p, 'w') as fh:
            json.dump(v, fh, indent=1)
        r = subprocess.run(['/opt/venv/bin/python', os.path.join(VERIF, 'replay.py'), p],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 1:
            found.append(dict(v, confirm=r.stdout[-500:]))
            return False
        violations.append(v)
        print('case %s: %s -- %s' % (v['case'], v['label'], v['detail']))
        print(r.stdout.strip()[-1500:])
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        sys.stdout.flush()
        return not a.keep_going

    tasks = [(i, ses.cases[i][3]) for i in sel]
    if a.bounds:
        o = json.loads(a.bounds)
        tasks = [(i, dict(b, **o)) for i, b in tasks]
    results, entered = ses.explore(tasks, deadline, on_viol)
    if a.tier == 'thorough' and (a.keep_going or not violations):
        depth = max([len(ses.cases[i][4]) for i in sel] + [0])
        for d in range(depth):
            more = [(i, ses.cases[i][4][d]) for i in sel if d < len(ses.cases[i][4])]
            if time.time() > deadline or (violations and not a.keep_going):
                break
            r2, e2 = ses.explore(more, deadline, on_viol)
            results += r2
            entered |= e2
    ses.stop()
    report(a, ses, results, entered, violations, found, kf, seen_known, time.time() - t0, hits)
    return 1 if violations else 0


def report(a, ses, results, entered, violations, found, kf, seen_known, wall, hits):
    from sx import core
    tot = core.Stats()
    for r in results:
        tot.add(r['stats'])
    cases, samples = [], []
    vac = []
    for r in results:
        st = r['stats']
        cases.append(dict(case=r['case'], bounds=r['bounds'], exhausted=not r['open'], worker_s=round(r['t'], 1),
                          **st.as_dict()))
        samples.extend(r['samples'])
        if not st.checks and not violations:
            vac.append(r['case'])
        print('%-28s paths=%-7d checks=%-8d queries=%-7d solver=%.1fs cpu=%.1fs unmodelled=%d%s' % (
            r['case'], st.paths, st.checks, st.queries, st.solver_s, r['t'], st.unmodelled,
            '  NOT EXHAUSTED' if r['open'] else ''))
        for u in r['unmod']:
            print('   unmodelled: %s' % json.dumps(u)[:700])
    for f in found:
        print('   unconfirmed: %s' % json.dumps(f)[:700])
    for i in seen_known:
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, kf[i]['finding'], kf[i]['what']))
    funcs = sorted(q for q in entered if q.startswith('pyopenapi') and not q.endswith(':'))
    ev = dict(
        property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED') or 0), level='model_checking',
        wall_s=round(wall, 2), violations=len(violations),
        coverage=dict(
            states=tot.paths, transitions=tot.decisions, traces_validated_against_impl=tot.replayed,
            samples=samples[:12] or [dict(note='stopped at the first violation')],
            queries_discharged=tot.queries, solver_s=round(tot.solver_s, 2), assertions_checked=tot.checks,
            assertions_needing_solver=tot.discharged_by_solver, infeasible_branches=tot.infeasible,
            unmodelled_paths=tot.unmodelled, solver_unknown=tot.unknown,
            exhaustive=all(not r['open'] for r in results) and not violations and not tot.unmodelled,
            functions_encoded=funcs, known_findings=hits, bounds=cases, vacuous_cases=vac,
            rule='states: feasible symbolic paths of the harness over the real code; transitions: branch decisions '
                 'taken by the solver; traces: path models replayed on the unmodified code'),
        assumptions=list(getattr(ses.natmod, 'ASSUMPTIONS', [])) + [
            'bounds per case as listed; outside them nothing is claimed',
            'shims: logging is silent; re, json, yaml, urllib.parse.lru_cache, pathlib are modelled or decided on '
            'concrete values; every explored path is replayed on the unmodified code'])
    p = os.path.join(os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence'), a.prop + '.json')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s: %s, %d paths, %d assertions, %d queries (%.1fs solver), %.1fs%s' % (
        a.prop, a.tier, 'VIOLATED' if violations else 'held', tot.paths, tot.checks, tot.queries, tot.solver_s, wall,
        ' VACUOUS: %s' % vac if vac else ''))


if __name__ == '__main__':
    sys.exit(main())
