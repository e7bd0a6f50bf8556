#!/bin/bash
# builds the extraction tool once (each check rebuilds whatever is missing or stale)
cd "$(dirname "$0")/vx" && CARGO_TARGET_DIR=../build/vx-target CARGO_NET_OFFLINE=true cargo build --offline --release 2>&1 | tail -1
