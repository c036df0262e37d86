"""writes MANIFEST.json from properties.jsonl, the harness modules present and NA below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
LIMITS = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'props', p.lower() + '.py')):
        checks.append(dict(
            property=p, quick_cmd='./check.py %s --tier quick' % p, thorough_cmd='./check.py %s --tier thorough' % p,
            evidence_file='evidence/%s.json' % p,
            technique='symbolic execution of the real Python source with z3 (AST-instrumented), assertions discharged '
                      'as SMT queries, counterexamples replayed natively',
            level='model_checking',
            level_note='Exhaustive over all inputs within the bounds listed per case in the evidence (names, presence '
                       'of fields, histories); nothing is claimed outside them. Trusts the instrumentation and string '
                       'model of /verif/sx, cross-checked by replaying a model of every explored path on the '
                       'unmodified code.' + LIMITS.get(p, '')))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: the code under test is instrumented in memory while it is loaded from the working tree.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
