# Sourced by the check scripts: same toolchain as /opt/vp/env.sh, own target dir.
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=nightly-2025-12-01
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset SAVE_TO_EXPECTED RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
export OZZCHECK_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$OZZCHECK_ROOT/target/main"
