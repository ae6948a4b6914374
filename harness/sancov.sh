#!/bin/sh
# rustc for the harness: the crate under test is built with edge counters and
# comparison hooks (src/cov.rs receives them), everything else as it is.
rustc=$1
shift
case " $* " in
*" --crate-name boxcars "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
*) exec "$rustc" "$@" ;;
esac
