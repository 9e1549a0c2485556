#!/bin/bash
# trybug.sh ID [PROP...] : run checks with a planted bug applied to /repo, undo afterwards
id=$1; shift
props="$@"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
exec 9>/tmp/repo.lock; flock -x 9
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
for p in $props; do
  /verif/check $p >/tmp/trybug.out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/trybug.out) $(tail -1 /tmp/trybug.out | cut -c1-200)"
done
git -C /repo checkout -- .
