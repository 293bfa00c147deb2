#!/bin/bash
# Warms the build caches; every check rebuilds what it needs anyway.
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=1.87 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
(cd mc && cargo build --release --offline) && bash tools/build_cli.sh
