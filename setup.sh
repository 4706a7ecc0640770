#!/bin/bash
# Builds all drivers once so that later checks only rebuild what changed. A failure here is not a
# verdict: each check rebuilds from /repo's tree itself.
root=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$root/target CARGO_NET_OFFLINE=true
mkdir -p "$root/target" "$root/evidence/replay"
( cd "$root/harness" && timeout 700 cargo build --profile quick --offline --locked --bins ) || echo "setup: prebuild failed; the checks build for themselves"
( cd "$root/harness" && timeout 1000 cargo build --release --offline --locked $(for i in 04 05 09 14 16 17 20 21 25 27 28; do echo --bin c$i; done) ) || echo "setup: prebuild failed; the checks build for themselves"
exit 0
