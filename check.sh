#!/bin/bash
# check.sh ID: build the monitors against /repo's working tree and run the check of one property
# check.sh replay FILE: show a recorded violation again
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg sqlparse_verif"
unset CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
mkdir -p work evidence replay
if ! (cd harness && cargo build --offline --locked -q) >work/build.log 2>&1; then
  grep -v '^warning' work/build.log | tail -40 >&2
  echo "build failed" >&2
  exit 2
fi
[ "$1" = build ] && exit 0
if [ "$1" = replay ]; then
  exec target/debug/sqlmon replay "$2"
fi
exec target/debug/sqlmon check "$1"
