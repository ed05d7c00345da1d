#!/bin/bash
# Builds the harnesses from the committed files, offline.
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$PWD/.target CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS
for c in core stack daemon; do
  [ -s $c/PROPS ] && { ( cd $c && cargo build --offline --quiet ) || exit 1; }
done
exit 0
