#!/usr/bin/env bash
# all.sh SEED...: every check on the current tree, under the given seeds.
for s in "$@"; do
    for i in $(seq -f 'C%02g' 1 "$(grep -c . /verif/properties.jsonl)"); do
        VERIF_SEED=$s VERIF_TIER=${VERIF_TIER:-quick} bash /verif/check.sh "$i"; rc=$?
        [ $rc = 0 ] || echo "$i seed $s: exit $rc"
    done
done
