#!/bin/bash
# Builds the command line tool of /repo and runs it from run.py (beside this file) inside a scratch folder.
# exit 0: the property holds on these runs; otherwise it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 2
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q -p cli 2> "$work/log" || { tail -30 "$work/log" >&2; exit 2; }
mkdir "$work/run"
timeout 240 python3 "$here/run.py" "$work/target/debug/cli" "$work/run"
