#!/bin/bash
# developer helper: build the IR and the replay binary of both harnesses, quietly
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
for h in harness harness-queue; do cd /verif/$h
cargo rustc --offline -q --profile sym --lib --crate-type cdylib -- --emit=llvm-ir 2>&1 | grep -E "^error" -A9 | head -60
CARGO_TARGET_DIR=$PWD/target/native cargo build --offline -q --features native 2>&1 | grep -E "^error" -A9 | head -40
done
