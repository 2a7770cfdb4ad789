#!/bin/bash
# Builds a small scripted scenario against the contracts in the current directory and runs it.
# exit 0: the guarantee held; nonzero: it was broken.  Everything stays in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)" || exit 3
repo="$PWD"
dir="$(mktemp -d)" || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src" && cp "$here"/*.rs "$dir/src/" && cp "$here/Cargo.lock" "$dir/" || exit 3
sed "s#REPO/#$repo/#" "$here/Cargo.toml" > "$dir/Cargo.toml" || exit 3
cd "$dir" || exit 3
export CARGO_TARGET_DIR="${DEMO_TARGET:-$dir/t}" CARGO_NET_OFFLINE=true
cargo build --offline > "$dir/log" 2>&1 || { tail -40 "$dir/log"; exit 4; }
"$CARGO_TARGET_DIR/debug/lenddemo"
rc=$?
echo "demo exit $rc"
exit $rc
