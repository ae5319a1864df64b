#!/bin/bash
# Rebuilds the MIR dump of /repo's current tree. usage: dump.sh OUT.json
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=$(realpath -m "$1")
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS RUSTUP_TOOLCHAIN CARGO_INCREMENTAL
W=$HERE/build
mkdir -p "$W"
exec 9>"$W/lock"
flock 9
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
if [ ! -x "$W/driver/release/mirdump" ] || [ "$HERE/driver/src/main.rs" -nt "$W/driver/release/mirdump" ]; then
  (cd "$HERE/driver" && CARGO_TARGET_DIR="$W/driver" cargo +nightly build --release --offline >"$W/driver.log" 2>&1) || { tail -40 "$W/driver.log" >&2; exit 3; }
fi
rm -f "$OUT"
rm -rf "$W"/target/debug/.fingerprint/extended-collections-* "$W/target/debug/build/extended-collections"
cd "$REPO"
MIRDUMP_CRATE=extended_collections MIRDUMP_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$W/driver/release/mirdump" CARGO_TARGET_DIR="$W/target" \
  cargo +nightly check --offline --locked --lib >"$W/check.log" 2>&1 || { tail -40 "$W/check.log" >&2; exit 3; }
[ -s "$OUT" ] || { echo "no dump produced" >&2; exit 3; }
