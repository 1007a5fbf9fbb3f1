#!/bin/bash
# seedtest.sh ID [PROPERTY...]: confirms a planted change in a scratch copy mounted over
# /repo in a private namespace: build, stable tests, demonstration with and without the
# change, then the checks named (default: that of meta.json).
ID=$1; shift
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$W/repo"; mkdir -p "$W/report" "$W/ev" "$W/build" "$W/demo"
cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ -d /verif/.build ] && cp -a /verif/.build/. "$W/build/" 2>/dev/null
unshare -Urm bash -s <<I
mount --bind $W/repo /repo; mkdir -p /opt/vp/report; mount --bind $W/report /opt/vp/report
mount --bind $W/ev /verif/evidence; mount --bind $W/build /verif/.build
cd /repo
bash $W/demo/demo.sh > $W/d0 2>&1; echo "demo clean: \$?"
git apply --check $S/patch.diff && git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try:
    o=json.load(open('$W/out.json'))
    p=set(o.get('passed',o.get('pass',[])))
    print('stable tests broken:', sorted(b-p))
except Exception as e: print('NO TEST RESULT', e)
P
bash $W/demo/demo.sh > $W/d1 2>&1; echo "demo patched: \$?"; tail -3 $W/d1
cd /verif
for p in $PROPS; do
  timeout 900 /opt/venv/bin/python mc/run.py \$p quick > $W/c.\$p 2>&1; echo "check \$p: exit \$?"; grep -v '^KNOWN' $W/c.\$p | tail -4 | cut -c1-240
done
I
tail -2 "$W/d0"; tail -1 $W/test.log
rm -rf "$W"
