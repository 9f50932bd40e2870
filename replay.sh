#!/bin/bash
# replay.sh FILE : runs the case of a replay file again, in words (exit 1 if it fails, 0 if it holds).
. "$(dirname "$0")/env.sh"
"$VERIF/build.sh" || exit 2
exec "$CARGO_TARGET_DIR/debug/kvmon" replay "$1"
