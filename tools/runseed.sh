#!/bin/bash
# tools/runseed.sh [ID...]: run each planted bug's own check on a scratch copy of the sources with the patch applied
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
one() {
  id=$1; d=$(mktemp -d /tmp/rs-XXXX)
  cp -a /repo/implicit "$d/implicit"
  (cd "$d" && git init -q . 2>/dev/null; git apply "$here/seeded/$id/patch.diff") || echo "NOAPPLY $id"
  prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
  out=$(VERIF_REPO=$d VERIF_OUT=$d/out python3 "$here/check.py" "$prop" 2>&1); rc=$?
  echo "$([ $rc = 1 ] && echo caught || echo MISSED) $id $prop rc=$rc $(echo "$out" | head -1 | cut -c1-140)"
  rm -rf "$d"
}
export -f one; export here
printf '%s\n' "$@" | xargs -P 7 -I{} bash -c 'one {}'
