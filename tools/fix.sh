#!/bin/bash
# tools/fix.sh "fix: message": run the stable tests, then commit /repo
set -e
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/fix.json >/dev/null 2>&1 || true
python3 - <<'P'
import json,sys
d=json.load(open('/tmp/fix.json'));b=json.load(open('/opt/vp/BASELINE.json'))
bad=[t for t in b['stable'] if t not in d['passed']]
print('passed',len(d['passed']),'broken',bad[:20])
sys.exit(bool(bad))
P
git -C /repo commit -qam "$1"
git -C /repo log --oneline | head -1
