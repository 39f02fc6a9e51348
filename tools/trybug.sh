#!/bin/bash
# tools/trybug.sh <seeded id> [properties...]: confirm a planted bug on /repo (build, stable tests, demo both ways) and run checks on it; undone afterwards
D=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
T=$(mktemp -d)
if [ -z "$NODEMO" ]; then
  bash /opt/vp/build.sh >$T/b0 2>&1 || { echo "base build failed"; exit 9; }
  timeout 300 bash $D/demo.sh >$T/d0 2>&1; r0=$?
  git apply $D/patch.diff || { echo "does not apply"; exit 9; }
  bash /opt/vp/build.sh >$T/b1 2>&1 || { echo "does not build"; tail -5 $T/b1; exit 9; }
  bash /opt/vp/test.sh $T/t.json >$T/t1 2>&1
  python3 - $T/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in b if x not in p]
print("tests:", "pass" if not m else f"FAIL {m[:5]}")
P
  timeout 300 bash $D/demo.sh >$T/d1 2>&1; r1=$?
  echo "demo: unchanged $r0, with the bug $r1"
  [ $r0 = 0 ] || tail -3 $T/d0
else
  git apply $D/patch.diff || { echo "does not apply"; exit 9; }
fi
cd /verif
for q in ${*:-$P}; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py $q >$T/c 2>$T/ce; rc=$?
  echo "$q: exit $rc in $(( $(date +%s)-s ))s; $(grep -A1 -m1 VIOLATION $T/c | tail -1 | cut -c1-200)"; [ $rc -gt 1 ] && tail -3 $T/ce
done
rm -rf "$T"
