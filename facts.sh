#!/bin/bash
# Build the fact driver if needed and dump MIR facts of /repo's current working tree.
# Prints the directory holding the facts.  Facts are cached by a hash over every input of the build.
set -u
V=$(cd "$(dirname "$(realpath "$0")")" && pwd)
B=$V/.build
REPO=${SX_REPO:-/repo}
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
log=$B/facts.log
if [ ! -x "$B/driver/debug/sxfacts" ] || [ "$(cat "$V"/driver/Cargo.toml "$V"/driver/src/*.rs | sha256sum)" != "$(cat "$B/driver.hash" 2>/dev/null)" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR="$B/driver" cargo +nightly build --offline) >"$log" 2>&1 || { echo "driver build failed, see $log" >&2; tail -20 "$log" >&2; exit 2; }
  cat "$V"/driver/Cargo.toml "$V"/driver/src/*.rs | sha256sum >"$B/driver.hash"
fi
h=$( { cat "$B/driver.hash"; cd "$REPO" && find src proto build.rs Cargo.toml Cargo.lock .cargo rust-toolchain rust-toolchain.toml -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -c1-24)
out=$B/facts-$h
if [ ! -f "$out/ok" ]; then
  for d in "$B"/facts-*; do [ -d "$d" ] && rm -rf "$d"; done
  mkdir -p "$out"
  export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
  export RUSTC_WORKSPACE_WRAPPER=$B/driver/debug/sxfacts SXFACTS_OUT=$out CARGO_TARGET_DIR=$B/target RUSTC_ICE=0 CARGO_INCREMENTAL=0
  # cargo's freshness cache would skip the wrapper: forget the workspace crate, keep its dependencies
  for d in "$B"/target/debug/.fingerprint/substrait-explain* "$B"/target/debug/build/substrait-explain* "$B"/target/debug/incremental; do [ -e "$d" ] && rm -rf "$d"; done
  (cd "$REPO" && cargo +nightly check --offline --lib --bins) >"$log" 2>&1 || { echo "cargo check of $REPO failed, see $log" >&2; tail -30 "$log" >&2; rm -rf "$out"; exit 2; }
  [ -s "$out/substrait_explain.json" ] && [ -s "$out/substrait_explain-bin.json" ] || { echo "no facts produced" >&2; exit 2; }
  touch "$out/ok"
fi
echo "$out"
