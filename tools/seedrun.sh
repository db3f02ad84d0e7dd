#!/bin/bash
# seedrun.sh [id...]: runs each planted bug's own check in a scratch copy of /repo (REPO points the check at it)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  wt=$(mktemp -d /tmp/sr-XXXXXX); rmdir "$wt"; cp -a /repo "$wt"
  git -C "$wt" apply "/verif/seeded/$d/patch.diff" || echo "PATCH DOES NOT APPLY"
  out=$(REPO="$wt" bash check.sh "$p" 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$out" | grep -c 'failed obligation') failed; $(echo "$out" | grep VIOLATION)"
  rm -rf -- "$wt"
done
