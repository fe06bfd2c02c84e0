#!/bin/bash
# usage: export.sh OUT.json  -- type-check /repo's current tree with the fact-exporting driver
set -e
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
OUT="$(realpath -m "$1")"
B="${MIRX_BUILD:-$V/.build}"
# another configuration of the same source (thorough tier): cargo features and extra compiler flags
FEATURES="${MIRX_FEATURES-ldbc}"; T="$B/target${MIRX_CONFIG:+-$MIRX_CONFIG}"
mkdir -p "$B"
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib:$LD_LIBRARY_PATH"
if [ ! -x "$V/driver/target/release/mirx" ] || [ "$V/driver/src/main.rs" -nt "$V/driver/target/release/mirx" ]; then
  (cd "$V/driver" && cargo +nightly build --release --offline -q)
fi
: > "$OUT"
cd "$REPO"
export CARGO_INCREMENTAL=0
if [ -d "$T" ]; then CARGO_TARGET_DIR="$T" cargo +nightly clean --offline -q -p rust_graph || true; fi
CARGO_TARGET_DIR="$T" RUSTC_WORKSPACE_WRAPPER="$V/driver/target/release/mirx" MIRX_CRATE=rust_graph MIRX_OUT="$OUT" \
RUSTFLAGS="-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings $MIRX_RUSTFLAGS" cargo +nightly check --offline --lib --features "$FEATURES" -q
test -s "$OUT"
