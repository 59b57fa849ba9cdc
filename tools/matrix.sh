#!/bin/bash
# matrix.sh [-a] [ID...]: run the check of each planted bug's property (-a: every check) on a scratch copy
# of /repo with the bug applied; prints one line per bug and check. Development aid, not a registered check.
all=; [ "$1" = "-a" ] && { all=1; shift; }
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
W=$(mktemp -d /tmp/matrix.XXXXXX); trap 'rm -rf "$W"' EXIT
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  rm -rf "$W/r"; git clone -q /repo "$W/r"; git -C "$W/r" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  own=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  props=$own; [ -n "$all" ] && props=$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  for p in $props; do
    s=$SECONDS
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VSIM_REPO="$W/r" ./check "$p" > "$W/out" 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$p" "$W/out")
    echo "$id $p rc=$rc violations=$v $((SECONDS-s))s $(grep -m1 "^VIOLATION" "$W/out" | cut -c1-100) $(grep -m1 -iE 'what|broke|:' "$W/out" | cut -c1-160)"
  done
done
