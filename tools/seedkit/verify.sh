#!/usr/bin/env bash
# verify.sh ID...: confirm planted bugs in a scratch copy: the demo passes, the
# patch applies, builds, keeps the tests, and the demo then fails.
. /opt/vp/env.sh
for id in "$@"; do
    d=/verif/seeded/$id
    w=$(mktemp -d /tmp/seed.XXXXXX)
    cp -a /repo/. "$w/"
    cd "$w" || exit 2
    git apply --check "$d/patch.diff" || { echo "$id: patch does not apply"; find "$w" -delete; continue; }
    bash "$d/demo.sh" >"$w.log" 2>&1; a=$?
    git apply "$d/patch.diff"
    bash "$d/demo.sh" >"$w.log2" 2>&1; b=$?
    cargo test --offline >"$w.log3" 2>&1; c=$?
    echo "$id: unchanged=$a patched=$b tests=$c"
    [ $a != 0 ] && grep -m3 -E 'panicked|error|rejected' -A2 "$w.log"
    [ $b = 0 ] && echo "  NOT BROKEN"
    if [ $c != 0 ]; then grep -E "FAILED|failed|^error" "$w.log3" | head; fi
    rm -f "$w.log" "$w.log2" "$w.log3"
    find "$w" -delete
    cd /
done
