#!/bin/bash
# Builds opsqueue from the current directory with the demonstration and runs it,
# all inside a scratch directory. Exit 0: the property held.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'chmod -R u+w "$w" 2>/dev/null; rm -rf "$w"' EXIT
cp -r "$here"/snowflaked "$here"/awslc "$here"/Cargo.lock "$here"/main.rs "$here"/common.rs "$w"/
sed "s#REPO#$repo#" "$here/Cargo.toml.in" >"$w/Cargo.toml"
cp "$repo/opsqueue/opsqueue_example_database_schema.db" "$w/schema.db"
mkdir "$w/data"
cd "$w" || exit 2
export RUSTUP_TOOLCHAIN=1.97.1-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
export DATABASE_URL="sqlite://$w/schema.db" DEMO_DIR="$w/data"
cargo build --offline -q >build.log 2>&1 || { tail -20 build.log; exit 2; }
timeout 120 ./target/debug/demo
