#!/bin/bash
# check.sh <property> [thorough]: builds the harness against /repo's working tree and runs one property.
# check.sh build: only builds.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p target work evidence
log=work/build.log
if ! flock target/.lock cargo build --release --offline --target-dir "$PWD/target" \
     --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  grep -E '^error' -A8 "$log" | head -40
  echo "ERROR the harness does not build against /repo"
  exit 2
fi
[ "$1" = build ] && exit 0
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec target/release/harness run "$1"
