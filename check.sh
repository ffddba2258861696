#!/bin/bash
# check.sh PROPERTY: verify one property against /repo's current sources
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/opt/veriftools/bin:$PATH HOME=${HOME:-/root} PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTC_WRAPPER
exec python3-vt -W ignore "$here/mirv/run.py" "$1"
