#!/bin/bash
# trybug.sh <seed id> [check ids...]: runs the property's check against a scratch copy with the planted bug applied (never /repo).
ID=$1; shift
W=/tmp/seedrepo; [ -d $W ] || git clone -q /repo $W
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply /verif/seeded/$ID/patch.diff || exit 9
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
for p in $P; do
  VERIF_REPO=$W VERIF_BUILD=/tmp/vb_seed VERIF_NOEVIDENCE=1 python3 /verif/run.py $p > /tmp/trybug_$ID.$p.log 2>&1; echo "$ID $p -> exit $? $(grep -m1 -B2 VIOLATION /tmp/trybug_$ID.$p.log | head -1 | cut -c1-200)"
done
git checkout -q -- .
