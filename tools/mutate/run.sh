#!/usr/bin/env bash
# run.sh N MUTANTS OUT: the checks against every mutant (gen.py), N at a time, on
# private copies of /repo and /verif mounted over the originals.
n=$1 out=$(realpath -m "$3")
w=$(mktemp -d /tmp/mutate.XXXXXX)
cp "$2" "$w/todo"
: >"$w/lock"
worker() {
    local d=$w/$1
    mkdir -p "$d/repo"
    tar -C /repo --exclude=./target -cf - . | tar -C "$d/repo" -xf -
    cp -a /verif "$d/verif"
    unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && export VERIF_DIR=/verif && python3 /verif/tools/mutate/work.py $w/todo $w/lock $out"
    find "$d" -delete
}
for i in $(seq "$n"); do worker "$i" & done
wait
find "$w" -delete
