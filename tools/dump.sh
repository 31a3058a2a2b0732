#!/bin/bash
# tools/dump.sh OUT.json [cargo feature args...]
# Type-checks /repo's current working tree with the MIR-dumping driver and
# writes the resolved program to OUT.json.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1; shift
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET
build=${VP_BUILD:-$here/build}
repo=${VP_REPO:-/repo}
mkdir -p "$build"
drv=$build/driver/debug/mirdump
(
  flock 9
  (cd "$here/driver" && cargo +nightly build --offline --target-dir "$build/driver" >"$build/driver.log" 2>&1) || { cat "$build/driver.log" >&2; exit 3; }
  [ -f "$repo/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$repo/Cargo.lock"
  rm -f "$out"
  # cargo's freshness cache would skip the wrapper on a warm target directory
  rm -rf "$build"/mir/debug/.fingerprint/foca-* "$build"/mir/debug/build/foca
  lib=$(rustc +nightly --print sysroot)/lib
  LD_LIBRARY_PATH=$lib VP_MIR_OUT=$out RUSTC_WORKSPACE_WRAPPER=$drv CARGO_INCREMENTAL=0 \
  CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=${VP_DBG:-false} CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true \
    cargo +nightly rustc --offline --profile dev --manifest-path "$repo/Cargo.toml" --target-dir "$build/mir" --lib "$@" \
    -- -Zmir-opt-level=0 -Zalways-encode-mir --emit=metadata >"$build/check.log" 2>&1 || { cat "$build/check.log" >&2; exit 4; }
) 9>"$build/lock" || exit $?
[ -s "$out" ] || { echo "no MIR dump produced" >&2; exit 5; }
