#!/bin/bash
# dump.sh OUT.json : (re)build the driver if needed and dump the MIR of /repo's working tree
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1
REPO=${LC3_REPO:-/repo}
B=${LC3_BUILD:-$HERE/.build}
mkdir -p "$B"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
unset RUSTC_WRAPPER RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_BUILD_RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
(cd "$HERE/driver" && CARGO_TARGET_DIR="$B/driver" cargo +nightly build --release --offline -q)
export CARGO_TARGET_DIR="$B/crate" CARGO_INCREMENTAL=0
rm -rf "$B"/crate/debug/.fingerprint/lc3-ensemble-* "$B"/crate/debug/build/lc3-ensemble*
export LC3_DUMP_CRATE=lc3_ensemble LC3_DUMP_OUT=$OUT
export RUSTC_WORKSPACE_WRAPPER="$B/driver/release/mirdump"
export RUSTFLAGS="-Zmir-opt-level=0 -Zinline-mir=no -Cdebug-assertions=on -Coverflow-checks=on -Awarnings"
rm -f "$OUT"
cargo +nightly check --offline $LC3_CARGO_FLAGS --lib --manifest-path "$REPO/Cargo.toml"
test -s "$OUT"
