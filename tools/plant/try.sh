#!/bin/bash
# Development aid: tries one planted bug against the repository's tests, its own
# demonstration and the check of its property. Usage: try.sh ID [PROPERTY...]
id=$1; shift
dir=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
if [ -z "$SKIP_CLEAN" ]; then
    bash "$dir/demo.sh" > /tmp/try.$id.clean 2>&1; echo "$id demo on clean: $?"
fi
git apply "$dir/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP_TESTS" ]; then
    bash /opt/vp/build.sh > /tmp/try.$id.build 2>&1; echo "$id build: $?"
    bash /opt/vp/test.sh /tmp/try.$id.json > /tmp/try.$id.test 2>&1
    python3 - "$id" <<'PY'
import json, sys
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r = json.load(open(f'/tmp/try.{sys.argv[1]}.json'))
p = set(r.get('passed', r.get('pass', [])))
print(sys.argv[1], 'stable tests failing:', sorted(stable - p))
PY
fi
if [ -z "$SKIP_DEMO" ]; then
    bash "$dir/demo.sh" > /tmp/try.$id.patched 2>&1; echo "$id demo on patched: $?"
fi
for p in $props; do
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/run.sh check $p quick > /tmp/try.$id.$p 2>&1; echo "$id check $p: $? $(grep -a -m1 ^VIOLATION /tmp/try.$id.$p)"
done
