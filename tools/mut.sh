#!/bin/bash
# mut.sh "PROPS" N PATCH: sweep N seeds of each property on /tmp/wt with the patch (in a simulator copy)
cd /tmp/wt && git checkout -q -- . && git apply "$3" || exit 2
/verif/tools/msim.sh | grep -v Finished
cd /tmp/msim
for p in $1; do target/debug/simq sweep $p 1 $2 2>&1 | grep -E "VIOL|INCON|runs in" | cut -c1-260; done
cd /tmp/wt && git checkout -q -- .
