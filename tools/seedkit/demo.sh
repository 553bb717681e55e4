#!/bin/bash
# Builds demo.rs against the tree in /repo (through the offline mirror build.sh made) and runs it.
# Exit 0: the behaviour is right; nonzero: it is broken.
set -e
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
. /opt/vp/offline/env.sh
cp -a "$WS" "$T/ws"
mkdir -p "$T/demo/src"
cp "$here/demo.rs" "$T/demo/src/main.rs"
[ ! -f "$here/kit.rs" ] || cp "$here/kit.rs" "$T/demo/src/kit.rs"
cat > "$T/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mega-evm = { path = "$T/ws/crates/mega-evm", features = ["test-utils"] }
alloy-primitives = "1"
[profile.dev]
debug = 0
incremental = false
EOF
cp "$WS/Cargo.lock" "$T/demo/Cargo.lock"
cd "$T/demo"
CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/log" || { tail -40 "$T/log"; exit 9; }
export RUST_BACKTRACE=0
timeout 100 "$T/target/debug/demo"
