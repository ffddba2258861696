#!/bin/bash
# builds the exporter and warms the dependency builds of the exported configurations and of the replay program
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/opt/veriftools/bin:$PATH HOME=${HOME:-/root} CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTC_WRAPPER
set -e
bash "$here/tools/build_mirdump.sh"
for c in default std libm libm_alloc libm_serde; do
    bash "$here/tools/dump.sh" $c "$here/build/warm.json"
done
rm -f "$here/build/warm.json"
for c in default std libm libm_alloc libm_serde; do
    t=$here/build/replay; [ $c = default ] || t=$t-$c
    CARGO_TARGET_DIR=$t cargo build --offline --no-default-features --features cfg_$c --manifest-path "$here/replay/Cargo.toml"
done
