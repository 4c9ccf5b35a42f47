#!/bin/bash
# run_seeded.sh [ID...]: run each planted bug's check against it (applied to /repo, undone afterwards); writes tools/caught.json
cd /verif/seeded || exit 1
for s in ${@:-*}; do
  P=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  (cd /verif; ./check.sh $P >/tmp/seed.out 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $P rc=$rc"
  python3 - "$s" "$P" "$rc" <<'P'
import json,os,sys
f='/verif/tools/caught.json'; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]=sys.argv[2] if sys.argv[3]=='1' else 'missed'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
done
