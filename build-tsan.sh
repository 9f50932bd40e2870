#!/bin/bash
# Builds the monitors, klavier-core, its dependencies, SQLite and std under ThreadSanitizer (nightly, ~80 s).
. "$(dirname "$0")/env.sh"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$VERIF/.build-tsan"
export RUSTFLAGS="-Zsanitizer=thread" CC=clang CFLAGS="-fsanitize=thread"
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --manifest-path "$VERIF/harness/Cargo.toml" >"$log" 2>&1; then
  tail -20 "$log" >&2
  echo "the ThreadSanitizer build failed: this run goes without it" >&2
  exit 1
fi
