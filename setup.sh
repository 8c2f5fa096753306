#!/bin/bash
# Builds everything a check needs (each check rebuilds what has changed).
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p evidence
log="$PWD/evidence/setup.log"
step() {
  if ! "$@" >>"$log" 2>&1; then
    tail -40 "$log"
    exit 1
  fi
}
: >"$log"
(cd engine && step cargo build --release --offline) || exit 1
for h in harness*; do
  [ -f "$h/Cargo.toml" ] || continue
  (cd "$h" && step cargo rustc --offline --profile sym --lib --crate-type cdylib -- --emit=llvm-ir &&
    step env CARGO_TARGET_DIR="$PWD/target/native" cargo build --offline --features native) || exit 1
done
echo "built"
