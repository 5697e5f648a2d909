#!/bin/bash
# Builds /repo and compares its stable tests with the baseline.
set -e
bash /opt/vp/build.sh >/tmp/repotest.build 2>&1 || { tail -20 /tmp/repotest.build; exit 1; }
bash /opt/vp/test.sh /tmp/repotest.json >/tmp/repotest.log 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/repotest.json'))
miss=sorted(b-set(o['passed'])); print('missing:', miss); raise SystemExit(1 if miss else 0)
PY
