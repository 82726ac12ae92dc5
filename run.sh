#!/bin/bash
# run.sh <harness crate> <property> [args]: builds the harness from /repo's working tree and runs it
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
crate=$1; shift
mkdir -p "$here/evidence" "$here/replays"
log=$(mktemp)
if ! { cd "$here/h/$crate" && { [ ! -f prepare.sh ] || bash prepare.sh; } && cargo build --offline --locked && cd "$here"; } >"$log" 2>&1; then
  tail -60 "$log"
  echo "# build of $crate failed: undecided"
  rm -f "$log"
  exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/h_$crate" "$@"
