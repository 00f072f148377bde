#!/bin/bash
# Everything is built by the checks themselves, from /repo's current tree. This only shows that the
# tools they need are there.
set -e
cd "$(dirname "$0")"
export PATH=$HOME/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
cargo kani --version
python3 --version
mkdir -p build evidence
