#!/bin/bash
# developer helper: build the harness and show only its own diagnostics
cd "$(dirname "$0")"; CARGO_TARGET_DIR=/verif/.build/harness cargo build --offline --message-format short 2>&1 | grep -vE "^/repo|^warning" | head -${1:-40}
