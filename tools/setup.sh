#!/bin/bash
# Builds the extractor and the replay harness from the committed files (offline).
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
(cd tools/vx && cargo build --offline --release --locked --target-dir ../../.build/vx)
(cd harness && cargo build --offline --release --target-dir ../.build/harness)
