#!/bin/bash
# seed_verify.sh ID [nocheck|all]: a planted bug builds, passes the tests, its demonstration tells both trees apart, and what
# the property's check says.  Works on a copy of /repo.
ID=$1; S=/verif/seeded/$ID; W=/tmp/sb-$ID
[ -d "$W" ] && find "$W" -delete
cp -a /repo "$W" || exit 1
cd "$W" || exit 1
sed "s#/repo#$W#g" /opt/vp/build.sh > "$W.build.sh"
sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W.build.sh#g" /opt/vp/test.sh > "$W.test.sh"
res="$ID:"
bash "$S/demo.sh" > "$W.demo0" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$res APPLY FAILED"; exit 1; }
bash "$W.test.sh" "$W.json" > "$W.log" 2>&1
t=$(python3 - "$W.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
base=b if isinstance(b,list) else b.get('passed') or b.get('stable') or next(v for v in b.values() if isinstance(v,list))
miss=[x for x in base if x not in r['passed']]
print('ok' if not miss else 'LOST:'+','.join(miss)[:200])
PY
)
bash "$S/demo.sh" > "$W.demo1" 2>&1; d1=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c=-
if [ "$2" != nocheck ]; then
  cd /verif; VERIF_REPO=$W VERIF_SEED=1 VERIF_TIER=quick python3 check.py $P quick > "$W.check" 2>&1; c=$?
  grep -q "^VIOLATION property=$P " "$W.check" || [ $c = 0 ] || c="$c?"
fi
echo "$res tests=$t demo=$d0/$d1 $P check=$c $(grep '^VIOLATION' "$W.check" 2>/dev/null | head -1 | cut -c1-60)"
find "$W" -delete
