#!/bin/bash
# builds demo.rs against the library in the current directory and runs it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d /tmp/geom3d-demo.XXXXXX)"
mkdir -p "$work/src" "$work/run"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
geom3d = { path = "$repo" }
T
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build --offline >"$work/log" 2>&1 || { tail -20 "$work/log"; rm -rf "$work"; exit 3; }
cd "$work/run" && timeout 60 "$work/target/debug/demo"
rc=$?
cd /
rm -rf "$work"
exit $rc
