#!/usr/bin/env python3
"""hot.py PROP CASE [bounds-json] [npaths]: where do paths fork?  (development aid)"""
import os, sys, site, json, collections, traceback
site.addsitedir('/opt/venv/lib/python3.12/site-packages')
sys.path[:0] = [os.environ.get('SX_REPO', '/repo'), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
import warnings; warnings.simplefilter('ignore')
from sx import run, core
ses = run.Session(sys.argv[1])
ci = [i for i, c in enumerate(ses.cases) if c[0] == sys.argv[2]][0]
b = dict(ses.cases[ci][3], **json.loads(sys.argv[3] if len(sys.argv) > 3 else '{}'))
n = int(sys.argv[4]) if len(sys.argv) > 4 else 300
hot = collections.Counter()
orig = core.Engine.branch
def branch(self, b):
    before = len(self.decisions)
    r = orig(self, b)
    if len(self.decisions) > before and before >= len(self.prefix):
        fs = [f for f in traceback.extract_stack() if '/sx/' not in f.filename]
        hot[' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fs[-1:-4:-1])] += 1
    return r
core.Engine.branch = branch
ex = run.Explorer(ses.cases, ses.snaps)
import time
t = time.time()
import random
stack = [()]
tot = 0
random.seed(1)
while stack and tot < n:
    random.shuffle(stack)
    p = stack.pop()
    left, st, _, viol, un, _ = ex.run(ci, b, [p], 0, time.time() + 100)
    stack += left; tot += st.paths
    for u in un: print('unmodelled', u)
    for v in viol: print('viol', v['label'], v['detail'][:300])
print(tot, 'paths', len(stack), 'open', round(time.time() - t, 1), 's')
for k, c in hot.most_common(25):
    print(c, k)
