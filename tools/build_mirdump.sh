#!/bin/bash
# builds the MIR exporter (a rustc driver) under /verif/build
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
sys=$(rustc +nightly --print sysroot)
cd "$here/mirdump"
LD_LIBRARY_PATH=$sys/lib CARGO_TARGET_DIR=$here/build/mirdump CARGO_NET_OFFLINE=true RUSTC_WRAPPER= cargo build --offline 2>&1
