#!/bin/bash
# replay.sh FILE : rebuild and repeat one recorded execution exactly.
cd "$(dirname "$0")" || exit 2
bash sim/build.sh || exit 2
SIM_DIR="$PWD" sim/target/release/scen replay "$1"
