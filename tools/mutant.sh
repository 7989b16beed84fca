#!/bin/bash
# mutant.sh PATCH PROP...: applies a change to /repo, builds, runs the stable tests and the checks, undoes it
set -u
patch=$1; shift
git -C /repo apply "$patch" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/mut.build 2>&1 || { echo "does not build"; tail -5 /tmp/mut.build; exit 3; }
bash /opt/vp/test.sh /tmp/mut.json >/tmp/mut.test 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); g=set(json.load(open('/tmp/mut.json'))['passed'])
miss=b-g
print("stable tests:", "ok" if not miss else "FAILED %d: %s" % (len(miss), sorted(miss)[:3]))
PY
for p in "$@"; do (cd /verif && timeout 900 python3 run.py $p ${TIER:-quick} 2>&1 | cut -c1-1200 | tail -4); done
