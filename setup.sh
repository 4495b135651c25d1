#!/bin/bash
# Builds every harness once (checks rebuild incrementally, or from scratch where target/ is gone).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1 || true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
for c in "$here"/harness/*_h; do
  (cd "$c" && cargo build --offline --quiet 2>&1 | grep -E '^error' -A8) 
done
exit 0
