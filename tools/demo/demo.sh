#!/bin/bash
# builds the scenario in demo/ against /repo's dex crate (in a scratch directory) and runs it
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo" || exit 9
cd "$work/demo" || exit 9
cargo build --offline --locked --quiet --target-dir "$work/target" 2> "$work/log" || { tail -40 "$work/log"; exit 9; }
timeout 60 "$work/target/debug/demo"
