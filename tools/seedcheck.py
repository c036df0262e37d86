#!/usr/bin/env python3
"""tools/seedcheck.py [id...]: run the checks of /verif against every planted bug in scratch copies of /repo

prints which check catches which bug; the property named in meta.json first, others on request: --also C01,C02"""
import json, os, shutil, subprocess, sys, tempfile
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
also = [a.split('=')[1].split(',') for a in sys.argv if a.startswith('--also=')]
for i in ids:
    d = tempfile.mkdtemp(prefix='sc_')
    try:
        src = '/verif/seeded/' + i
        meta = json.load(open(src + '/meta.json'))
        copy = d + '/r'
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        subprocess.run(['git', '-C', copy, 'apply', src + '/patch.diff'], check=True)
        for p in [meta['property']] + (also[0] if also else []):
            r = subprocess.run(['nice', '/verif/check.py', p], cwd='/verif', capture_output=True, text=True,
                               env=dict(os.environ, SX_REPO=copy, VERIF_EVIDENCE=d), timeout=2000)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            c = [l for l in r.stdout.splitlines() if l.startswith('case ')]
            print('%-26s %s rc=%d %s %s' % (i, p, r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', (c or [''])[0][:150]))
            sys.stdout.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)
