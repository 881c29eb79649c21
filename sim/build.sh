#!/bin/bash
# Build the simulator from /repo's current working tree.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.97.1-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$PWD/rustcw.sh" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p target
cp /repo/opsqueue/opsqueue_example_database_schema.db target/schema.db
export DATABASE_URL="sqlite://$PWD/target/schema.db"
cargo build --offline "$@"
