#!/usr/bin/env bash
# check.sh ID            run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh setup         build only
# check.sh replay FILE   run one recorded case again
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no answer.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
here=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/harness/target"
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
# the same program with edge counters in the crate under test, which steer the
# guided part of the search; a check does without if this cannot be built
(cd harness && RUSTC_WRAPPER="$here/harness/sancov.sh" cargo build --offline --release --locked \
    --target-dir "$here/harness/target-cov") >/dev/null 2>&1 &
cov=$!
if ! (cd harness && cargo build --offline --release --locked) >"$log" 2>&1; then
    cat "$log" >&2
    echo "error: the harness does not build against /repo" >&2
    wait $cov
    exit 2
fi
wait $cov || find "$here/harness/target-cov/release" -maxdepth 1 -name vp -delete 2>/dev/null
bin="$CARGO_TARGET_DIR/release/vp"
case "$1" in
setup) exit 0 ;;
replay) "$bin" replay "$2" ;;
C[0-9][0-9]) "$bin" run "$1" ;;
*) echo "usage: check.sh ID | setup | replay FILE" >&2; exit 2 ;;
esac
