#!/bin/bash
# check.sh ID quick|thorough : decides one property on /repo's current working tree.
. "$(dirname "$0")/env.sh"
cd "$VERIF" || exit 2
"$VERIF/build.sh" || exit 2
if [ "$1" = C27 ]; then
  # the same workload in a second build under ThreadSanitizer (std, SQLite and all crates instrumented)
  "$VERIF/build-tsan.sh" && export KVMON_TSAN_EXE="$VERIF/.build-tsan/x86_64-unknown-linux-gnu/debug/kvmon"
fi
exec "$CARGO_TARGET_DIR/debug/kvmon" check "$1" "${2:-quick}"
