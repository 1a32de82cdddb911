#!/bin/bash
# tools/trybugs.sh [bug...]: for each planted bug, applies it in /repo, builds, tests, runs the check of its property, undoes it
cd /verif
for b in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: DOES NOT APPLY"; continue; }
    bash /opt/vp/build.sh > /tmp/trybug.log 2>&1; br=$?
    bash /opt/vp/test.sh /tmp/trybug.json > /tmp/trybug.test 2>&1; t=$(tail -1 /tmp/trybug.test)
    VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 check.py $p > /tmp/trybug.check 2>&1; r=$?
    git -C /repo checkout -q -- .
    echo "$b ($p): build=$br tests='$t' check exit=$r $(grep -c '^VIOLATION' /tmp/trybug.check) $(grep '^\[' /tmp/trybug.check | head -1 | cut -c1-150)"
done
