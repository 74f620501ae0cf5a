#!/usr/bin/env bash
# Builds demo.rs (fn values() -> Vec<f32>) against the crate in the current
# directory in several builds and compares the bits of the values.
# Exit 0: the same everywhere; 1: they differ.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
tmp="$(mktemp -d /tmp/ozzdemo.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/demo.rs"
cp "$here/kit.rs" "$tmp/src/kit.rs"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat >"$tmp/src/lib.rs" <<'T'
mod kit;
mod demo;
#[no_mangle]
pub extern "C" fn digest() -> u64 {
    demo::values().iter().fold(0xcbf29ce484222325, |h, v| (h ^ v.to_bits() as u64).wrapping_mul(0x100000001b3))
}
T
echo 'fn main() { println!("{}", ozzdemo::digest() as i64); }' >"$tmp/src/main.rs"
cat >"$tmp/Cargo.toml" <<T
[package]
name = "ozzdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
crate-type = ["cdylib", "rlib"]
[dependencies]
ozz-animation-rs = { path = "$repo" }
glam = { version = "0.29", features = ["core-simd", "libm"] }
glam-ext = { version = "0.2", features = ["core-simd", "libm"] }
rkyv = { version = "0.7", features = ["validation"] }
serde_json = "1.0"
[profile.dev]
opt-level = 1
debug = false
[profile.release]
debug = false
T
export CARGO_INCREMENTAL=0
cat >"$tmp/run.js" <<'T'
const m = new WebAssembly.Module(require('fs').readFileSync(process.argv[2]));
console.log(String(new WebAssembly.Instance(m, {}).exports.digest()));
T
build() { # name flags args...
  local n=$1 f=$2; shift 2
  (cd "$tmp" && RUSTFLAGS="$f" CARGO_TARGET_DIR="$tmp/$n" cargo build --offline -q "$@") >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
}
build debug ""
build release "" --release
build wasm "-Ctarget-feature=+simd128" --lib --release --target wasm32-unknown-unknown
a=$("$tmp/debug/debug/ozzdemo") || exit 1
b=$("$tmp/release/release/ozzdemo") || exit 1
c=$(node "$tmp/run.js" "$tmp/wasm/wasm32-unknown-unknown/release/ozzdemo.wasm") || exit 1
d=$a
if grep -qw fma /proc/cpuinfo && grep -qw avx2 /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo; then
  build fma "-Ctarget-cpu=x86-64-v3" --release
  d=$("$tmp/fma/release/ozzdemo") || exit 1
fi
echo "debug $a release $b wasm $c fma $d"
[ "$a" = "$b" ] && [ "$a" = "$c" ] && [ "$a" = "$d" ]
