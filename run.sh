#!/bin/bash
# usage: run.sh <property> <quick|thorough>     decide one property of /repo's working tree
#        run.sh setup                           build the tools only
# Everything is derived from /repo's current source: the driver (mirdump) makes rustc type-check
# the crate and writes the compiler's intermediate representation; the analyser (bqsa) decides.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${BQSA_REPO:-/repo}"
W="$V/work"
mkdir -p "$W" "$V/evidence"
exec 9>"$W/lock"; flock 9
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTUP_TOOLCHAIN RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR RUSTC_WORKSPACE_WRAPPER
build() {
  (cd "$V/mirdump" && CARGO_TARGET_DIR="$W/mirdump" cargo +nightly build --release --offline -q) >"$W/build.log" 2>&1 || { cat "$W/build.log" >&2; return 1; }
  (cd "$V/bqsa" && CARGO_TARGET_DIR="$W/bqsa" cargo +stable build --release --offline -q) >"$W/build.log" 2>&1 || { cat "$W/build.log" >&2; return 1; }
}
build || { echo "tools do not build" >&2; exit 2; }
[ "${1:-}" = setup ] && exit 0
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
T="$(mktemp -d "$W/runXXXXXX")"
trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
TGT="$W/target-ir"
rm -rf "$TGT"/debug/.fingerprint/bq2cst-* "$TGT"/debug/build/bq2cst "$TGT"/debug/incremental
if ! (cd "$REPO" && BQSA_CRATE=bq2cst BQSA_OUT="$T/ir.json" RUSTC_WORKSPACE_WRAPPER="$W/mirdump/release/mirdump" CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$TGT" cargo +nightly check --lib --offline --locked) >"$T/dump.log" 2>&1 || [ ! -s "$T/ir.json" ]; then
  tail -40 "$T/dump.log" >&2
  echo "the crate in $REPO could not be type-checked" >&2
  exit 2
fi
"$W/bqsa/release/bqsa" check "$ID" --ir "$T/ir.json" --src "$REPO/src" --known "$V/known-findings.txt" --evidence "$V/evidence/$ID.json" --replay "$W/replay-$ID.txt" --tier "$TIER" --seed "${VERIF_SEED:-1}"
RC=$?
exit $RC
