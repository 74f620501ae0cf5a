# Sourced by run.sh: builds every variant and sets OZZX_VARIANTS.
# name | rustflags | cargo arguments | result
xv() { # name flags dir result args...
  local name=$1 flags=$2 res=$3; shift 3
  local dir="$OZZCHECK_ROOT/target/x-$name"
  mkdir -p "$dir"
  (cd "$OZZCHECK_ROOT/xplat" && RUSTFLAGS="$flags" CARGO_TARGET_DIR="$dir" cargo build --offline "$@" >"$dir/build.log" 2>&1)
  echo $? >"$dir/build.rc"
}
xplat_build() {
  if [ -n "${OZZX_VARIANTS:-}" ]; then return 0; fi
  local jobs=3 fma=0
  grep -qw fma /proc/cpuinfo && grep -qw avx2 /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo && fma=1
  local W=wasm32-unknown-unknown
  local pids=()
  xv debug "" debug/ozzx & pids+=($!)
  xv wasm "" x --release --lib --target $W --features wasm & pids+=($!)
  xv wasmsimd "-Ctarget-feature=+simd128" x --release --lib --target $W & pids+=($!)
  wait "${pids[@]}"; pids=()
  xv release "" x --release --features full & pids+=($!)
  [ $fma = 1 ] && { xv avx2fma "-Ctarget-cpu=x86-64-v3" x --release & pids+=($!); }
  xv wasmsmall "-Ctarget-feature=+simd128" x --profile small --lib --target $W & pids+=($!)
  wait "${pids[@]}"
  local t="$OZZCHECK_ROOT/target" v bad=0
  OZZX_VARIANTS="x86-64 unoptimised=$t/x-debug/debug/ozzx;x86-64 opt-level 3 with rkyv and serde=$t/x-release/release/ozzx"
  OZZX_VARIANTS+=";wasm32 without SIMD, feature wasm=wasm:$t/x-wasm/$W/release/ozzx.wasm;wasm32 simd128=wasm:$t/x-wasmsimd/$W/release/ozzx.wasm"
  OZZX_VARIANTS+=";wasm32 simd128 opt-level s LTO=wasm:$t/x-wasmsmall/$W/small/ozzx.wasm"
  local names="debug release wasm wasmsimd wasmsmall"
  [ $fma = 1 ] && { OZZX_VARIANTS+=";x86-64-v3 (AVX2, FMA) opt-level 3=$t/x-avx2fma/release/ozzx"; names+=" avx2fma"; }
  for v in $names; do
    if [ "$(cat "$t/x-$v/build.rc")" != 0 ]; then tail -30 "$t/x-$v/build.log" >&2; echo "variant $v does not build" >&2; bad=1; fi
  done
  export OZZX_VARIANTS
  OZZCHECK_EXTRA_EVIDENCE=$(python3 -c 'import json,os;print(json.dumps({"variants":["x86-64 opt-level 2, overflow checks (harness)"]+[v.split("=")[0] for v in os.environ["OZZX_VARIANTS"].split(";")]}))')
  export OZZCHECK_EXTRA_EVIDENCE
  return $bad
}
