#!/bin/bash
# mkseed.sh ID : copies the demo harness beside seeded/ID/main.rs
cd "$(dirname "$0")/.." || exit 1
d=seeded/$1; mkdir -p "$d"
cp tools/demo/{Cargo.toml,Cargo.lock,demo.sh,kit.rs,chain.rs,enc.rs,stubs.rs,types.rs,world.rs} "$d/"
chmod +x "$d/demo.sh"
