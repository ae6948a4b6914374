#!/usr/bin/env bash
# hunt.sh [-a] ID...: run the check of the property each planted bug breaks
# (with -a: every check) against the bug, applied to /repo and undone afterwards.
all=
[ "$1" = -a ] && { all=1; shift; }
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply "$d/patch.diff" || continue
    ids=$p
    [ -n "$all" ] && ids=$(seq -f 'C%02g' 1 "$(grep -c . /verif/properties.jsonl)")
    hits=
    for c in $ids; do
        out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash /verif/check.sh "$c" 2>&1); rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then hits="$hits $c"; elif [ $rc != 0 ]; then hits="$hits $c(rc=$rc)"; fi
    done
    git -C /repo checkout -q -- .
    echo "$id [$p]:${hits:- MISSED}"
done
