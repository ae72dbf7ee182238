#!/bin/bash
# seeded_run.sh [id...]     run the check of each planted bug's property against a patched
#                           scratch copy of /repo (CHECKS="C01 C03" runs these instead)
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
    wt=$(mktemp -d)
    cp -a /repo/. "$wt" && git -C "$wt" apply "$here/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$wt"; continue; }
    own=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "seeded/$id/meta.json")
    for p in ${CHECKS:-$own}; do
        out=$(SQPDFO_REPO="$wt" VERIF_EVIDENCE_DIR="$wt/evidence" /opt/venv/bin/python check.py "$p" --tier quick 2>&1); rc=$?
        echo "$id $p rc=$rc $(grep -m1 -A1 "^VIOLATION" <<<"$out" | tr '\n' ' ' | cut -c1-300)"
        [ $rc -gt 1 ] && echo "$out" | tail -5
    done
    rm -rf "$wt"
done
