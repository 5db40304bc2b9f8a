#!/bin/bash
# check.sh ID quick|thorough : build from /repo's working tree, search, write evidence/ID.json.
# exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: no answer.
cd "$(dirname "$0")" || exit 2
id=$1; tier=${2:-quick}
bash sim/build.sh || exit 2
export SIM_DIR="$PWD"
sim/target/release/scen check "$id" "$tier"
rc=$?
[ $rc -le 1 ] && { grep "^KNOWN-FINDING: property=$id " known_findings.txt || true; }
exit $rc
