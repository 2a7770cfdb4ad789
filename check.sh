#!/bin/bash
# check.sh ID quick|thorough : rebuild the simulator against /repo's working tree, then run one check
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT="$PWD"
mkdir -p evidence replays
./setup.sh >target-build.log 2>&1 || { tail -40 target-build.log; echo "build failed"; exit 2; }
exec target/release/lendsim check --property "$1" --tier "${2:-quick}"
