#!/bin/bash
# check.sh ID: rebuilds the harness against /repo's working tree and runs the check of property ID.
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export VERIF_ROOT=$ROOT
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$ROOT/.target CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS
id=$1
crate=core
grep -qx "$id" stack/PROPS 2>/dev/null && crate=stack
grep -qx "$id" daemon/PROPS 2>/dev/null && crate=daemon
( cd $crate && cargo build --offline --quiet ) || { echo "check $id: build failed" >&2; exit 3; }
exec "$ROOT/.target/debug/h-$crate" run "$id"
