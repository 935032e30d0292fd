#!/bin/bash
# tools/fixcommit.sh "fix: message"  - runs the stable tests on /repo's working tree and commits
set -e
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/fx.json >/dev/null 2>&1 || true
python3 - <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/fx.json'))
def passed(x):
    for k in ('passed','stable_passed','stable','pass'):
        if k in x: return set(x[k])
    raise SystemExit('keys '+str(x.keys()))
miss=passed(b)-passed(r)
print('missing',len(miss),sorted(miss)[:5])
sys.exit(1 if miss else 0)
PY
cd /repo && git add -u && git commit -qm "$1" && git log --oneline | head -1 && git status --short | head
