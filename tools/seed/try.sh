#!/bin/bash
# try.sh ID [notests]: confirms a planted bug in a scratch copy of /repo: the demonstration passes
# without and fails with it, it builds and the stable tests pass; then runs its property's check (and CHECKS).
id=$1; dir=/verif/seeded/$id; wt=/tmp/seedwt.$id
rm -rf "$wt"; cp -a /repo "$wt" || exit 2
trap 'rm -rf "$wt"' EXIT
. /opt/vp/env.sh; cd "$wt" || exit 2
git checkout -q -- . ; cp /verif/tools/seed/demo.sh "$dir/demo.sh"
bash "$dir/demo.sh" > /tmp/seed.$id.log 2>&1 || { echo "$id DEMO FAILS ON CLEAN TREE"; tail -30 /tmp/seed.$id.log; exit 1; }
git apply "$dir/patch.diff" || { echo "$id patch does not apply"; exit 1; }
if bash "$dir/demo.sh" > /tmp/seed.$id.log 2>&1; then echo "$id DEMO PASSES WITH THE BUG"; exit 1; fi
grep -q "build failed" /tmp/seed.$id.log && { echo "$id DOES NOT BUILD"; tail -20 /tmp/seed.$id.log; exit 1; }
if [ "$2" != notests ]; then
  mkdir -p /tmp/seedt.$id; pk=$(packages | grep -v '^defund/app$')
  go test -json -vet=off -count=1 -timeout 10m $pkgs $pk > /tmp/seedt.$id/main.json 2>/dev/null
  go test -json -vet=off -count=1 -timeout 4m ./app -args -Enabled=true -Commit=true -NumBlocks=30 -BlockSize=30 -Seed=7 > /tmp/seedt.$id/app.json 2>/dev/null
  python3 /opt/vp/results.py /tmp/seedt.$id/o.json "gojson:/tmp/seedt.$id/*.json" > /dev/null
  python3 - $id <<'P'
import json,sys
i=sys.argv[1]
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(f'/tmp/seedt.{i}/o.json'))
bl=b.get('passed') or b.get('stable') or b
bl=[x if isinstance(x,str) else x.get('name') for x in bl]
miss=[x for x in bl if x not in set(o['passed'])]
print(i,'stable tests broken:',miss if miss else 'none')
P
  rm -rf /tmp/seedt.$id
fi
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
for c in $prop $CHECKS; do
  VERIF_REPO=$wt /verif/check $c quick > /tmp/seed.$id.$c.log 2>&1; rc=$?
  echo "$id $c rc=$rc $(tail -1 /tmp/seed.$id.$c.log | cut -c1-150)"
done
