#!/bin/bash
# Checks build everything they need themselves; this verifies that the tools are there and builds the path-wise engine.
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
export CARGO_NET_OFFLINE=true RUSTFLAGS="-A dangerous_implicit_autorefs -A unexpected_cfgs"
cargo kani --version
(cd replay && RUSTUP_TOOLCHAIN=stable cargo build --offline --target-dir ../.build/setup >/dev/null 2>&1)
(cd lsx && RUSTFLAGS= RUSTUP_TOOLCHAIN=stable cargo build --release --offline --target-dir ../.build/lsx >/dev/null 2>&1)
echo setup done
