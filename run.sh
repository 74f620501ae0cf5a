#!/usr/bin/env bash
# run.sh check <ID> | replay <FILE> | list | prebuild : builds the harness
# against /repo's current working tree and runs it.
set -u
cd "$(dirname "${BASH_SOURCE[0]}")"
. ./env.sh
mkdir -p "$CARGO_TARGET_DIR"

# Properties whose cases also run, at a reduced count, in an AddressSanitizer build.
ASAN_PROPS=" C01 C02 C04 C05 C06 C13 C16 "
ASAN_DIR="$OZZCHECK_ROOT/target/asan"
ASAN_EXE="$ASAN_DIR/x86_64-unknown-linux-gnu/release/ozzcheck"

build() { # target-dir rustflags args...
  local dir=$1 flags=$2; shift 2
  mkdir -p "$dir"
  local log="$dir/build-$$.log"
  if ! (cd harness && RUSTFLAGS="$flags" CARGO_TARGET_DIR="$dir" cargo build --release --offline "$@") >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "harness does not build against /repo" >&2
    exit 3
  fi
  rm -f "$log"
}
build_main() { build "$CARGO_TARGET_DIR" ""; }
build_asan() { build "$ASAN_DIR" "-Zsanitizer=address" --target x86_64-unknown-linux-gnu; }
asan_env() {
  export ASAN_OPTIONS="exitcode=86:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_odr_violation=0"
}
prop=${2:-}
[ "${1:-}" = replay ] && prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2")

case "${1:-}" in
prebuild)
  build_main; build_asan
  . xplat/build.sh; xplat_build || exit 3
  exec "$CARGO_TARGET_DIR/release/ozzcheck" list ;;
replay)
  if grep -q '"build": "asan"' "$2"; then
    build_asan; asan_env
    exec "$ASAN_EXE" replay "$2"
  fi ;;
esac

build_main
if [ "$prop" = C19 ]; then
  . xplat/build.sh
  xplat_build || exit 3
fi
if [ "${1:-}" = check ] && [[ "$ASAN_PROPS" == *" $prop "* ]]; then
  build_asan
  (asan_env; OZZCHECK_SCALE=$(python3 -c 'import os;print(float(os.environ.get("OZZCHECK_SCALE","1"))*0.05)') exec "$ASAN_EXE" check "$prop")
  rc=$?
  [ $rc = 0 ] || exit $rc
  OZZCHECK_EXTRA_EVIDENCE=$(python3 -c 'import json,sys;print(json.dumps(json.load(open(sys.argv[1]))["coverage"]["extra"]))' "evidence/$prop.json")
  export OZZCHECK_EXTRA_EVIDENCE
fi
exec "$CARGO_TARGET_DIR/release/ozzcheck" "$@"
