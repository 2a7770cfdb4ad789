#!/bin/bash
# builds the simulator (offline) from sim/ and the contracts in /repo
cd "$(dirname "$(readlink -f "$0")")/sim" || exit 2
export CARGO_TARGET_DIR="$PWD/../target" CARGO_NET_OFFLINE=true
exec cargo build --release --offline
