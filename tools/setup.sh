#!/bin/bash
# builds the extractor and the bounded companion
cd "$(dirname "$0")/.." || exit 1
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
(cd extract && cargo build --offline -q --target-dir ../.build/vx) || exit 1
bash tools/build_harness.sh "$PWD/.build" /repo
