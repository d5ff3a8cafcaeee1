#!/bin/bash
# Run with cwd /repo. Builds the C library and drives it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/p" "$WORK/t"
cp "$here"/*.py "$here"/*.c "$WORK/p/" 2>/dev/null
mode=debug; release=; [ -f "$here/release" ] && mode=release release=--release
CARGO_TARGET_DIR="$WORK/target" RUSTFLAGS="-Awarnings" cargo build --offline -q $release -p tsfile-writer-c || exit 3
cd "$WORK/t" || exit 3
SO="$WORK/target/$mode/libtsfile_writer_c.so" timeout 250 python3 -B "$WORK/p/check.py"
