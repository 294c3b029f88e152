#!/bin/bash
# tools/try_bug.sh ID [PROP...]: runs the checks (by default that of the bug's property) against a scratch copy of
# the repository with the planted bug applied, and removes the copy. One line for each: caught or missed.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
props=${*:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
wt=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo "$wt/repo"
git -C "$wt/repo" apply "$here/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "${wt:?}"; exit 2; }
for p in $props; do
    s=$(date +%s)
    VERIF_REPO="$wt/repo" python3 "$here/check.py" $p --tier quick > "$wt/out" 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$p" "$wt/out")
    [ $rc = 1 ] && [ "$v" -gt 0 ] && r=CAUGHT || r="MISSED (rc $rc)"
    echo "$id: $p $r, $(($(date +%s)-s)) s"
    [ $rc -gt 1 ] && tail -5 "$wt/out"
done
rm -rf "${wt:?}"
