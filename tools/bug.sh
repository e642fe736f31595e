#!/bin/bash
# developer helper: bug.sh ID [notest] : validate a planted bug in /repo (applied, then undone):
# build, stable tests, demo, quick check of its property; then the demo on the unchanged tree
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
t=$(mktemp -d); cp -r $d/. $t; rm -f $t/*.diff $t/meta.json
run_demo() { (cd /repo && timeout 300 bash $t/demo.sh > /tmp/demo-$id.log 2>&1); echo "demo($1) rc=$? $(tail -1 /tmp/demo-$id.log | cut -c1-160)"; }
if [ "$2" != nobase ] && [ "$3" != nobase ]; then bash /opt/vp/build.sh > /tmp/b.log 2>&1; run_demo clean; fi
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { grep -A8 "^error" /tmp/b.log | head -30; exit 1; }
run_demo bug
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/ob.json > /tmp/tb.log 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/ob.json'))
print('tests missing:',set(b['stable'])-set(o['passed']))"; fi
(cd /verif; VERIF_SEED=1 bash check.sh $prop quick > /tmp/c-$id.log 2>&1; echo "check $prop rc=$?"; grep -E "^VIOLATION|violations=" /tmp/c-$id.log | head -3)
git -C /repo checkout -q -- .
rm -rf "$t"
