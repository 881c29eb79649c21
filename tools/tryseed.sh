#!/bin/bash
# tryseed.sh ID [PROPERTY...]: does the check catch the planted bug?
id="$1"; shift
props="${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}"
git -C /repo apply "/verif/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick SIMQ_OUT=/tmp/ev SIMQ_SECS=${SIMQ_SECS:-40} /verif/check.sh "$p" quick 2>&1); rc=$?
    echo "$id $p exit $rc: $(echo "$out" | grep -E '^VIOLATION|error|failed' | head -2 | tr '\n' ' ') $(echo "$out" | tail -1 | cut -c1-200)"
done
