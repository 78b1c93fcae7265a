#!/bin/bash
# seedtest.sh <seed id> [nocheck] : confirm a planted bug in /repo's working tree and undo it
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >/tmp/seed.out 2>&1; a=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.tst 2>&1
t=$(python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
k=[x for x in b if isinstance(b[x],list)]
base=set(max((b[x] for x in k), key=len)); print(len(base-set(r['passed'])))
E
)
bash $D/demo.sh >/tmp/seed.out2 2>&1; b=$?
echo "$1 ($P): demo clean=$a patched=$b; baseline tests failing=$t"
tail -2 /tmp/seed.out2
if [ "$2" != nocheck ]; then cd /verif; timeout 900 ./check.sh $P > /tmp/seed.chk 2>&1; echo "check exit $?"; grep -A3 -B1 "VIOLATION\|^part" /tmp/seed.chk | head -8; fi
git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
