#!/bin/bash
# dump.sh CONFIG OUT: exports the MIR of /repo reachable from the entry points, in feature configuration CONFIG
set -e
cfg=$1; out=$2
here=$(cd "$(dirname "$0")/.." && pwd)
sys=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$sys/lib
export RUSTC_WRAPPER=$here/build/mirdump/debug/mirdump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --sysroot $sys -Awarnings"
export CARGO_TARGET_DIR=$here/build/roots-$cfg
export MIRDUMP_CRATE=roots MIRDUMP_OUT=$out MIRDUMP_STOPS=$here/roots/stops.txt
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cd "$here/roots"
touch src/lib.rs
cargo +nightly build --offline --features "cfg_$cfg" 2>&1
