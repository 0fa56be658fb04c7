#!/bin/bash
# builds the extraction tool and the replay engine from the committed files, offline
set -e
cd "$(dirname "$0")"
(cd tools/vx && cargo build --release --offline --locked -q)
(cd harness && CARGO_TARGET_DIR="$PWD/../work/target" cargo build --release --offline --locked -q)
mkdir -p work
echo 'pub const EXACT: bool = true;' > work/none.rs
(cd conform && VX_EXT="$PWD/../work/none.rs" CARGO_TARGET_DIR="$PWD/../work/target" cargo build --release --offline --locked -q --bin contracts)
