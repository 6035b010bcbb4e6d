#!/bin/bash
# developer helper: build symbolic and concrete harness, dump contracts, prove
export CARGO_NET_OFFLINE=true
cd /verif/harness
SCARLET_VERIF_SYM=/verif/engine/sym.rs RUSTFLAGS="--cfg scarlet_verif -Awarnings" cargo build -q --target-dir /tmp/tgt_s || exit 1
[ "$2" = s ] || RUSTFLAGS=-Awarnings cargo build -q --target-dir /tmp/tgt_c || exit 1
rm -rf /tmp/d; mkdir /tmp/d
/tmp/tgt_s/debug/contracts dump ${1:-all} /tmp/d
