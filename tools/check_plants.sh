#!/bin/bash
# check_plants.sh ID...: runs the property's check against each planted change (VERIF_REPO-free: bind mount over /repo).
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    d=$(mktemp -d /tmp/cp.XXXXXX); mkdir "$d/repo"
    git -C /repo archive HEAD | tar x -C "$d/repo"; find /repo/src -name '*.so' -path '*aihwkit*' | while read -r f; do cp "$f" "$d/repo/${f#/repo/}"; done
    prop=$(python3 -c "import json,sys; print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
    (cd "$d/repo" && git init -q && git apply "$here/seeded/$id/patch.diff")
    s=$(date +%s)
    unshare -m bash -c "mount --bind $d/repo /repo; cp -a $here $d/verif; cd $d/verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py $prop" > "$d/log" 2>&1
    rc=$?
    echo "$id $prop rc=$rc $(($(date +%s)-s))s $(grep -c ^VIOLATION "$d/log") violations: $(grep -m3 -E '^violated|INCONCL' "$d/log" | tr '\n' ';' | cut -c1-300)"
    rm -rf "$d"
done
