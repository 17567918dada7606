#!/bin/bash
# usage: check.sh <property> [quick|thorough]    (run in /verif)
cd "$(dirname "$0")" || exit 3
export QLC_VERIF="$PWD" CARGO_NET_OFFLINE=true
[ -n "$2" ] && export VERIF_TIER="$2"
if ! out=$(cargo build -q --offline --manifest-path mc/Cargo.toml --target-dir target/mc 2>&1); then
  echo "$out" | tail -40 >&2
  exit 3
fi
exec target/mc/debug/mc "$1" "$2"
