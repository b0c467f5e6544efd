#!/bin/bash
# seedtest.sh <seed dir>: confirm a planted bug in a scratch copy: builds, passes the stable tests, demo 0 on clean and nonzero with patch.
# Uses the scratch copy /tmp/seedrepo bind... (the demo runs with cwd = copy; REPO path is the cwd)
set -u
D=$(realpath "$1"); W=${2:-/tmp/seedrepo}
[ -d $W ] || git clone -q /repo $W
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD || exit 9
sed "s#^REPO=.*#REPO=$W#" /opt/vp/common.sh > /tmp/seed_common.sh; 
for s in build test; do sed "s#/opt/vp/common.sh#/tmp/seed_common.sh#" /opt/vp/$s.sh > /tmp/seed_$s.sh; done
bash /tmp/seed_build.sh > /tmp/seed_b0.log 2>&1 || { echo "clean build failed"; exit 9; }
bash $D/demo.sh > /tmp/seed_demo0.log 2>&1; r0=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 9; }
bash /tmp/seed_build.sh > /tmp/seed_b1.log 2>&1 || { echo "patched build failed"; tail -5 /tmp/seed_b1.log; git checkout -q -- .; exit 9; }
bash /tmp/seed_test.sh /tmp/seed_o.json > /tmp/seed_t.log 2>&1
miss=$(python3 -c "
import json
print(sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/seed_o.json'))['passed'])))")
bash $D/demo.sh > /tmp/seed_demo1.log 2>&1; r1=$?
git checkout -q -- .
echo "$(basename $D): demo clean=$r0 patched=$r1 missing tests=$miss"
[ $r0 = 0 ] && [ $r1 != 0 ] && [ "$miss" = "[]" ]
