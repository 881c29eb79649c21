#!/bin/bash
# msim.sh: (re)build in /tmp/msim a simulator around the scratch clone /tmp/wt
# instead of /repo. Then: /tmp/msim/target/debug/simq sweep PROP FROM N
set -e
mkdir -p /tmp/msim
rsync -a --exclude target /verif/sim/ /tmp/msim/ 2>/dev/null || (cd /verif/sim && tar cf - --exclude=./target . | tar xf - -C /tmp/msim)
[ -d /tmp/msim/target ] || cp -a /verif/sim/target /tmp/msim/target
cd /tmp/msim
sed -i 's#/repo#/tmp/wt#g' Cargo.toml build.sh build.rs
[ -f Cargo.lock ] && sed -i 's#/repo#/tmp/wt#g' Cargo.lock
find /tmp/wt/opsqueue -name '*.rs' -newer /tmp/msim/target/.stamp -print -quit 2>/dev/null | grep -q . || true
touch build.rs
./build.sh 2>&1 | grep -E "^error|Finished" -A8
