#!/bin/bash
# mutate.sh ID...: run the quick check of each planted bug's property against a scratch copy of /repo that carries the bug
# (ALL="C13 C14" runs these properties instead)
D=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  T=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo "$T/repo"; git -C "$T/repo" checkout -q -- .
  git -C "$T/repo" apply "$D/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; rm -rf "$T"; continue; }
  for p in ${ALL:-$(python3 -c "import json;print(json.load(open('$D/seeded/$id/meta.json'))['property'])")}; do
    t0=$(date +%s)
    out=$(cd "$D" && REPO_DIR=$T/repo timeout 900 ./check.sh "$p" quick 2>&1); rc=$?
    s=$(( $(date +%s) - t0 ))
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then echo "$id CAUGHT by $p (${s}s): $(grep -A1 -m1 '^VIOLATION' <<<"$out" | tail -1 | cut -c1-160)"
    else echo "$id MISSED by $p (${s}s) rc=$rc: $(tail -2 <<<"$out" | cut -c1-200)"; fi
  done
  rm -rf "$T"
done
