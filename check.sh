#!/bin/bash
# check.sh PROPERTY [options]: build, then search
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
./build.sh || { echo "the simulator does not build" >&2; exit 2; }
exec target/release/sim check "$@"
