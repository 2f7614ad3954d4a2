#!/bin/bash
# builds the replay harness and warms the MIR build; every check rebuilds what it needs by itself
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
(cd harness && CARGO_TARGET_DIR=../.build/harness cargo build --offline -q) || exit 1
(cd /repo && CARGO_TARGET_DIR=/verif/.build/mir cargo +nightly rustc --offline --lib -q -- -Zunpretty=mir -o /verif/.build/setup.mir 2>/dev/null) || exit 1
rm -f /verif/.build/setup.mir
exit 0
