#!/bin/bash
# run.sh <PROPERTY> <quick|thorough> -- rebuilds the checker from /repo's working tree, then checks.
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=1.87 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p work evidence
log=work/build.$$.log
if ! (cd mc && cargo build --release --offline >"../$log" 2>&1); then
  cat "$log"; rm -f "$log"
  echo "harness build failed"; exit 1
fi
if [ "$1" = C23 ] && ! bash tools/build_cli.sh >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "the command-line program does not build"; exit 1
fi
rm -f "$log"
exec ./target/release/mc "$1" "$2"
