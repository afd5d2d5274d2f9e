#!/bin/bash
# builds the extractor and the replay engine from the committed files (each check does the same again if needed)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
for n in extract replay; do
  CARGO_TARGET_DIR="$PWD/.build/$n" cargo build --release --offline --manifest-path $n/Cargo.toml || exit 1
done
