#!/bin/bash
# seedtest.sh ID - confirms a planted bug in a scratch copy of /repo (/tmp/mut): builds with it, passes
# the stable tests, the demo fails with it and passes without it.
set -uo pipefail
id=$1; s=/verif/seeded/$id
[ -d /tmp/mut/.git ] || cp -a /repo /tmp/mut
mkdir -p /tmp/mutvp
for f in build.sh test.sh prepare.py run_tests.py results.py; do sed 's,/repo,/tmp/mut,g; s,/opt/vp/,/tmp/mutvp/,g' /opt/vp/$f >/tmp/mutvp/$f; done
git -C /tmp/mut fetch -q /repo HEAD && git -C /tmp/mut checkout -q -f FETCH_HEAD || exit 3
cd /tmp/mut
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 3; }
bash /tmp/mutvp/test.sh /tmp/mut-t.json >/tmp/mut-$id.log 2>&1 || { echo "$id: build/test run failed"; tail -5 /tmp/mut-$id.log; git checkout -q .; exit 3; }
python3 - <<'P' || { git checkout -q .; exit 3; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/mut-t.json'))
miss=b-set(t['passed']); print('tests broken:',sorted(miss)[:5]) if miss else None
sys.exit(bool(miss))
P
timeout 300 bash $s/demo.sh >/tmp/mut-$id.demo 2>&1; m=$?
git checkout -q .
cd /repo; timeout 300 bash $s/demo.sh >/tmp/repo-$id.demo 2>&1; c=$?
echo "$id: demo clean=$c patched=$m"; tail -2 /tmp/mut-$id.demo
[ $c = 0 ] && [ $m != 0 ] && [ $m != 124 ] && echo "$id: CONFIRMED"
