#!/bin/sh
# tools/recheck.sh ID...: run the check of each planted bug's property on a patched scratch copy
for id in "$@"; do
  t=$(mktemp -d /tmp/recheck_XXXXXX); cp -a /repo/. "$t/"
  git -C "$t" apply "/verif/seeded/$id/patch.diff" || echo "APPLY FAILED $id"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$t /verif/check "$p" > "$t/_out" 2>&1; rc=$?
  echo "$id $p exit=$rc $(grep -E 'VIOLATION|first of|held' "$t/_out" | head -2 | cut -c1-250 | tr '\n' ' ')"
  rm -rf "$t"
done
