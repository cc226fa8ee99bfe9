#!/bin/bash
# usage: check.sh <property id> [--thorough]     (run in /verif or anywhere)
# Rebuilds the symbolic executor together with /repo's current source and explores the property.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export SX_ROOT="$root" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$root/sx/target" RUSTFLAGS="" CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
cd "$root/sx" || exit 2
# never trust time stamps: the code under test is always compiled anew
cargo clean --offline -q -p quadtree >/dev/null 2>&1
log="$(mktemp)"
if ! cargo build --offline -q >"$log" 2>&1; then
  grep -E '^error' -A 12 "$log" | head -60 >&2
  rm -f "$log"
  echo "the code under test does not build with the symbolic number type" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/sx" run "$@"
