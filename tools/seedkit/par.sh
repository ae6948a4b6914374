#!/usr/bin/env bash
# par.sh N CMD ID...: runs CMD (verify.sh) on the IDs, N at a time.
n=$1; cmd=$2; shift 2
printf '%s\n' "$@" | xargs -P "$n" -I{} bash "$(dirname "$0")/$cmd" {}
