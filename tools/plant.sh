#!/bin/bash
# tools/plant.sh ID [CHECK...] : verifies a planted change in /verif/seeded/ID
# (patch applies, builds, stable tests pass, demo passes without and fails with it)
# and runs the quick checks named (default: the property in meta.json) against it.
# The patch is applied to /repo and undone straight afterwards.
ID=$1; shift
D=/verif/seeded/$ID
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
CHECKS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
trap 'git -C /repo checkout -q -- .; rm -f /tmp/plant.json' EXIT
bash $D/demo.sh >/tmp/plant.demo0 2>&1; echo "demo without: $?"
git apply "$D/patch.diff" || exit 2
bash /opt/vp/build.sh >/tmp/plant.build 2>&1; echo "build: $?"
bash $D/demo.sh >/tmp/plant.demo1 2>&1; echo "demo with: $?"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant.json'))
p=set(o['passed'])
print('stable tests missing:', [t for t in b['stable'] if t not in p])
P
fi
for c in $CHECKS; do
  (cd /verif && timeout 900 ./run.sh $c >/tmp/plant.$c.out 2>&1; echo "check $c: $? $(grep -m1 -h VIOLATION /tmp/plant.$c.out)")
done
