#!/bin/bash
cd "$(dirname "$0")/.." || exit 1
export VERIF_DIR="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$VERIF_DIR/target"
cd harness && cargo build --release --offline --bins 2>&1 | tail -3
cargo build --release --offline --bin c21digest --features parallel --target-dir "$CARGO_TARGET_DIR/par" 2>&1 | tail -1
cargo build --release --offline --bin c21digest --no-default-features --target-dir "$CARGO_TARGET_DIR/nostd" 2>&1 | tail -1
