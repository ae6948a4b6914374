#!/usr/bin/env bash
# phunt.sh N [-a] ID...: like hunt.sh, N at a time, on private copies of /repo and
# /verif that are mounted over the originals, so that both stay as they are.
n=$1; shift
flag=
[ "$1" = -a ] && { flag=-a; shift; }
w=$(mktemp -d /tmp/phunt.XXXXXX)
printf '%s\n' "$@" >"$w/todo"
worker() {
    local d=$w/$1 id
    mkdir -p "$d"
    mkdir "$d/repo"; tar -C /repo --exclude=./target -cf - . | tar -C "$d/repo" -xf -
    cp -a /verif "$d/verif"
    while :; do
        id=$(flock "$w/lock" sh -c "head -n1 $w/todo; sed -i 1d $w/todo")
        [ -z "$id" ] && break
        unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && bash /verif/tools/seedkit/hunt.sh $flag $id"
    done
    find "$d" -delete
}
for i in $(seq "$n"); do worker "$i" & done
wait
find "$w" -delete
