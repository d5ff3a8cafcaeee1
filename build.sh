#!/bin/bash
# Build the simulator against /repo's working tree with the hooks on.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg tsfile_sim -Awarnings" CARGO_TARGET_DIR="$PWD/target"
[ -d /root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu ] && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd sim
if ! { cargo build --release --offline --locked && cargo build --profile ship --offline --locked; } >"$CARGO_TARGET_DIR.log" 2>&1; then
  tail -40 "$CARGO_TARGET_DIR.log" >&2
  exit 2
fi
