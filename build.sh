#!/bin/bash
# Builds the monitors against /repo's current working tree. Exit 2 when it does not build.
. "$(dirname "$0")/env.sh"
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline --manifest-path "$VERIF/harness/Cargo.toml" >"$log" 2>&1; then
  grep -E -A6 '^error' "$log" | head -40 >&2
  echo "the monitors do not build against /repo" >&2
  exit 2
fi
