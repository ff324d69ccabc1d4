#!/bin/bash
# run.sh HARNESS PROPERTY [ARGS...] - rebuild HARNESS from /repo's working tree and run one check.
# Exit 0: held; 1: violation; 2: could not decide (build or machinery failure).
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
h=$1; shift
python3 gen/mirror.py || { echo "mirror generation failed"; exit 2; }
log=$PWD/work/build-$h.log
if ! cargo build --offline --manifest-path "$h/Cargo.toml" >"$log" 2>&1; then
  grep -E "^error" -A12 "$log" | head -60
  echo "building $h failed (full log: $log)"
  exit 2
fi
exec "target/debug/$h" "$@"
