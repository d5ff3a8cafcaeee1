#!/bin/bash
# replay.sh FILE: run a replay file again
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
./build.sh || exit 2
exec target/release/sim replay "$@"
