#!/bin/bash
# Builds the explorer once (the checks build it again against the then current /repo).
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/mc"
CARGO_NET_OFFLINE=true cargo build --release --offline --locked --no-default-features --features C01
