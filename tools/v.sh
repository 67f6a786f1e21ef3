#!/bin/bash
# extract and verify one unit against /repo (development helper): v.sh UNIT [verus options]
U=$1; shift
cd /verif/extract && cargo build --offline -q --target-dir /verif/.build/vx || exit 3
mkdir -p /verif/.build/gen
cd /verif/.build/gen
/verif/.build/vx/debug/vx ${SRC:-/repo/src} /verif/specs/$U.vx $U.rs $U.json || exit 2
timeout ${T:-300} verus $U.rs --triggers-mode silent --multiple-errors ${ME:-3} "$@" 2>&1
