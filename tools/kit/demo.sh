#!/bin/bash
# Builds the program with a small driver in a scratch directory and runs demo.rs: 0 if the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$work/"
cd "$work" || exit 3
# start from what the build of /repo has compiled already (cargo builds whatever is missing or differs)
if [ -d /repo/target/debug/deps ]; then
  mkdir -p "$work/target/debug"
  cp -a /repo/target/debug/deps /repo/target/debug/.fingerprint /repo/target/debug/build "$work/target/debug/"
  find "$work/target/debug" -maxdepth 2 \( -name 'cyclos*' -o -name 'libcyclos*' \) -exec rm -rf {} +
fi
CARGO_INCREMENTAL=1 RUSTC_WRAPPER= CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true \
  cargo build --offline --locked --quiet >"$work/log" 2>&1 || { tail -20 "$work/log"; exit 4; }
timeout 120 "$work/target/debug/demo"
