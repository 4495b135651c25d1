#!/bin/bash
# Which registered check catches which seeded change: catch.sh [id ...]
# Each runs against a scratch copy of /repo (SCRATCH, default /tmp/w/mut) mounted over /repo in a namespace of its own.
# Results are kept in tools/caught.json; tools/table.py puts them into DESIGN.md.
scratch=${SCRATCH:-/tmp/w/mut}
root=$(cd "$(dirname "$0")/.." && pwd)
cd "$root/seeded" || exit 1
[ $# = 0 ] && set -- *
git -C "$scratch" checkout -q -- . && git -C "$scratch" fetch -q /repo HEAD && git -C "$scratch" reset -q --hard FETCH_HEAD
for id; do
  prop=$(python3 -c "import json,sys; print(json.load(open('$id/meta.json'))['property'])")
  git -C "$scratch" apply "$root/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  t0=$(date +%s)
  unshare -Urm bash -c "mount --bind $scratch /repo && cd $root && VERIF_TARGET=${TARGET:-/tmp/w/mtarget} VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./run.sh $prop" > /tmp/catch_$id.log 2>&1; rc=$?
  git -C "$scratch" checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION /tmp/catch_$id.log)"
  python3 - "$root/tools/caught.json" "$id" "$prop" $rc <<'P'
import json, sys
f, i, p, rc = sys.argv[1:]
try: d = json.load(open(f))
except OSError: d = {}
d[i] = p if rc == "1" else "missed (rc %s)" % rc
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
P
  [ $rc = 1 ] && rm -f /tmp/catch_$id.log
done
