#!/bin/bash
# plant.sh ID [PROP...]: confirm a seeded change (build, stable tests, demo) and run checks against it
id=$1; shift
d=/verif/seeded/$id
prop=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo.out 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/demo.out; exit 1; }
fi
git apply $d/patch.diff || exit 1
if [ -z "$SKIP" ]; then
bash /verif/tools/base.sh | tail -2
(bash $d/demo.sh) >/tmp/demo.out 2>&1 && { echo "DEMO PASSES WITH PATCH"; exit 1; } || { echo "demo fails with patch (good): $(tail -1 /tmp/demo.out)"; }
fi
for p in $prop; do
  timeout 900 /verif/run.sh $p quick > /tmp/plant.$p.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/plant.$p.out)"; grep -m2 '^case' /tmp/plant.$p.out | cut -c1-200
done
git checkout -q -- .
