#!/bin/bash
# usage: run.sh <property id> | run.sh replay <file>   (VERIF_SEED, VERIF_TIER are read by the harness)
# Builds the harness of the property from /repo's current tree, then runs it.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=${1:?property}
if [ "$id" = replay ]; then
  id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
  [ -n "$id" ] || { echo "no property in $2" >&2; exit 2; }
fi
case $id in
  C17) crate=long_h;;
  C0*|C1*) crate=parser_h;;
  C2*) crate=crond_h;;
  C3*) crate=uri_h;;
  C4*) crate=hocon_h;;
  C5*) crate=toys_h;;
  *) echo "unknown property $id" >&2; exit 2;;
esac
. /opt/vp/env.sh >/dev/null 2>&1 || true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="${VERIF_TARGET:-$here/target}" CARGO_NET_OFFLINE=true VERIF_ROOT="$here"
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! (cd "$here/harness/$crate" && cargo build --offline --quiet) >"$log" 2>&1; then
  grep -E '^error' -A12 "$log" | head -60 >&2
  echo "harness $crate does not build" >&2
  exit 2
fi
"$CARGO_TARGET_DIR/debug/$crate" "$@"
