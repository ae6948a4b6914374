#!/usr/bin/env bash
# Builds main.rs against the boxcars of the current directory and runs it:
# exit 0 if the library behaves as it should. Writes only below a scratch folder.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d) || exit 2
trap 'find "$t" -delete' EXIT
mkdir "$t/src" || exit 2
cp "$here"/main.rs "$here"/kit.rs "$t/src/" || exit 2
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cat >"$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
boxcars = { path = "$repo" }
bitter = "*"
serde = "1"
serde_json = "1"
[profile.dev]
debug = 0
[workspace]
TOML
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 3
"$t/target/debug/demo"
