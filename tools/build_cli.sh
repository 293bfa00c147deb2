#!/bin/bash
# Builds the command-line program of /repo's working tree, outside /repo.
export RUSTUP_TOOLCHAIN=1.87 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/cli CARGO_PROFILE_RELEASE_DEBUG=0
exec cargo build --release --offline --locked -p carcara-cli --manifest-path /repo/Cargo.toml
