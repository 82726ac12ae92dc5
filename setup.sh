#!/bin/bash
# Builds every harness once, so that the checks only rebuild what has changed.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
for d in "$here"/h/*/; do
  [ -f "$d/src/main.rs" ] || continue
  [ ! -f "$d/prepare.sh" ] || bash "$d/prepare.sh" >/dev/null 2>&1 || echo "# $(basename "$d"): prepare.sh failed"
  (cd "$d" && cargo build --offline --locked) >/dev/null 2>&1 || echo "# $(basename "$d") did not build"
done
exit 0
