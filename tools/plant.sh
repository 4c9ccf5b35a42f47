#!/bin/bash
# plant.sh ID: /repo working tree holds the change; demo.sh & meta.json already in /verif/seeded/ID
set -e
D=/verif/seeded/$1
cd /repo
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no diff"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/o.json | tail -1
if bash $D/demo.sh >/tmp/demo.out 2>&1; then echo "demo passes WITH the change"; tail -5 /tmp/demo.out; else echo "demo fails with change (good): $(tail -1 /tmp/demo.out)"; fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
(cd /verif; ./check.sh $P | tail -2)
git checkout -q -- .
if bash $D/demo.sh >/tmp/demo.out 2>&1; then echo "demo ok on clean"; else echo "demo FAILS on clean"; tail -5 /tmp/demo.out; fi
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
m=b-set(o['passed'])
print("stable tests broken:",sorted(m)[:3]) if m else print("stable ok")
P
