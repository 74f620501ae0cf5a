#!/usr/bin/env bash
# Builds demo.rs against the crate in the current directory and runs it.
# Exit 0: behaves as documented; 1: the property is broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
tmp="$(mktemp -d /tmp/ozzdemo.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/kit.rs" "$tmp/src/kit.rs"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<T
[package]
name = "ozzdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ozz-animation-rs = { path = "$repo" }
glam = { version = "0.29", features = ["core-simd", "libm"] }
glam-ext = { version = "0.2", features = ["core-simd", "libm"] }
rkyv = { version = "0.7", features = ["validation"] }
serde_json = "1.0"
[profile.dev]
opt-level = 1
debug = false
T
export CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0
(cd "$tmp" && cargo build --offline -q) >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
cd "$repo" && timeout 120 "$tmp/target/debug/ozzdemo"
