#!/bin/bash
# builds the driver and the std model (idempotent)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true
cd $V/driver && cargo +nightly build --release --offline -q
mkdir -p $V/stdmodel/target
if [ ! -f $V/stdmodel/target/libstdmodel.rlib ] || [ $V/stdmodel/src/lib.rs -nt $V/stdmodel/target/libstdmodel.rlib ]; then
  rustc +nightly --edition 2021 --crate-type rlib --crate-name stdmodel -Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off -Cpanic=unwind -o $V/stdmodel/target/libstdmodel.rlib $V/stdmodel/src/lib.rs
fi
