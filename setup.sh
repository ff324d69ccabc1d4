#!/bin/bash
# setup.sh HARNESS... - build the given harnesses (each check rebuilds its own again).
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
python3 gen/mirror.py || exit 2
for h in "$@"; do
  cargo build --offline --manifest-path "$h/Cargo.toml" || exit 2
done
