#!/bin/bash
# Builds main.rs against the crates of /repo (as /opt/vp/build.sh prepared them) in a scratch directory and
# runs it there: exit 0 if the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here"/Cargo.toml "$here"/stub "$here"/*.rs "$work"/
cp /opt/vp/ws/Cargo.lock "$work"/
# the stand-in takes the place of the version in use
v=$(grep -A1 'name = "local-ip-address"' "$work"/Cargo.lock | sed -n 's/^version = //p')
sed -i "s/^version = .*/version = $v/" "$work"/stub/Cargo.toml
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target} TMPDIR=$work CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cd "$work" || exit 3
cargo build --offline -q 2>"$work/log" || { tail -40 "$work/log"; exit 3; }
cd "$work" && timeout 120 "$CARGO_TARGET_DIR/debug/demo"
