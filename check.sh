#!/bin/bash
# check.sh PROPERTY quick|thorough: build the simulator around /repo's current
# working tree and search for violations of the property.
cd "$(dirname "$0")/sim" || exit 2
mkdir -p target
# cargo goes by modification times; go by contents as well
sum=$( (cat rustcw.sh; cd /repo && find opsqueue Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.sql' -o -name '*.db' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ -e target/repo.sum ] && [ "$(cat target/repo.sum)" != "$sum" ]; then
    RUSTUP_TOOLCHAIN=1.97.1-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$PWD/target" cargo clean --offline -p opsqueue -p simq >/dev/null 2>&1
fi
if ! ./build.sh >target/build.log 2>&1; then
    grep -E '^(error|warning: unused)' -A6 target/build.log | head -60
    tail -5 target/build.log
    echo "build failed"
    exit 2
fi
echo "$sum" >target/repo.sum
exec ./target/debug/simq check "$1" "${2:-quick}"
