#!/bin/bash
# usage: caught.sh ID...  : run the property's check on a scratch copy of /repo with the planted bug applied
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  w=$(mktemp -d /tmp/caught_XXXXXX)
  cp -a /repo $w/repo; git -C $w/repo checkout -q -- .
  if ! git -C $w/repo apply $V/seeded/$id/patch.diff; then echo "$id PATCH-FAIL"; rm -rf $w; continue; fi
  for p in ${PROPS:-$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}; do
    c=$(echo $p | tr A-Z a-z)
    s=$(date +%s)
    (cd $V; VERIF_REPO=$w/repo VERIF_TIER=quick VERIF_SEED=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 timeout 900 /opt/venv/bin/python checks/$c.py > $w/out 2>&1; echo "rc=$?" >> $w/out)
    echo "$id $p $(tail -1 $w/out) $(( $(date +%s) - s ))s $(grep -c VIOLATION $w/out) $(grep VIOLATION $w/out | head -1 | cut -c1-150)"
  done
  rm -rf $w
done
