#!/bin/bash
# tools/trybug.sh [-t] ID...: demo without and with the patch, the property's quick check with it; -t: the test suite too
T=; [ "$1" = -t ] && { T=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
for i in "$@"; do
    S=$V/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    (cd /repo && bash $S/demo.sh >/tmp/demo0.log 2>&1); A=$?
    git -C /repo apply $S/patch.diff || { echo "$i: patch"; continue; }
    bash /opt/vp/build.sh >/tmp/bugbuild.log 2>&1; B=$?
    (cd /repo && bash $S/demo.sh >/tmp/demo1.log 2>&1); C=$?
    R=; [ -n "$T" ] && { bash /opt/vp/test.sh /tmp/bug.json >/tmp/bugtest.log 2>&1; R="tests: $(tail -1 /tmp/bugtest.log)"; }
    (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $P >/tmp/bugcheck.log 2>&1); K=$?
    git -C /repo checkout -- .
    bash /opt/vp/build.sh >/dev/null 2>&1
    echo "$i $P demo clean=$A patched=$C build=$B check=$K $R | $(grep -h 'relation' /tmp/bugcheck.log | head -1 | cut -c1-160)"
done
