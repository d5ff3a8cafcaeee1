#!/bin/bash
# Run with cwd /repo. Builds a small program against the library and checks what it does.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/p/src" "$WORK/t"
cp "$here"/*.py "$here"/*.c "$WORK/p/" 2>/dev/null
cp "$here/driver.rs" "$WORK/p/src/main.rs"
mode=debug; release=; [ -f "$here/release" ] && mode=release release=--release
features=; [ -f "$here/recv.py" ] && features="--features sync"
cat > "$WORK/p/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[features]
sync = ["tsfile-writer/sync_sender", "thrift"]
[dependencies]
tsfile-writer = { path = "$repo/tsfile-writer" }
thrift = { version = "0.14.1", optional = true }
log = "0.4"
[workspace]
[profile.dev]
opt-level = 1
X
cp "$repo/Cargo.lock" "$WORK/p/Cargo.lock" 2>/dev/null
cd "$WORK/p" || exit 3
RUSTFLAGS="--cfg tsfile_sim -Awarnings" CARGO_TARGET_DIR="$WORK/target" cargo build --offline -q $release $features || exit 3
cd "$WORK/t" || exit 3
BIN="$WORK/target/$mode/demo" timeout 250 python3 -B "$WORK/p/check.py"
