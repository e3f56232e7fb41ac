#!/bin/bash
# bash check.sh ID: rebuilds the harness that decides property ID from /repo's working tree and runs it.
set -u
id=$1
cd "$(dirname "${BASH_SOURCE[0]}")" && . ws/env.sh
crate=$(awk -v id="$id" '$1 == id { print $2 }' harness/map.txt)
[ -n "$crate" ] || { echo "no harness for $id"; exit 3; }
mkdir -p build evidence
(
    flock 9
    python3 ws/mkws.py || exit 4
    cd build/ws && cargo build --offline -q -p "$crate" >"$VERIF/build/$crate.log" 2>&1
) 9>build/lock
rc=$?
if [ $rc -ne 0 ]; then
    echo "$id: cannot build $crate from /repo's working tree"
    grep -A8 '^error' "build/$crate.log" | head -60
    exit 5
fi
timeout -k 5 "${VERIF_TIMEOUT:-$([ "${VERIF_TIER:-quick}" = thorough ] && echo 10800 || echo 600)}" "$CARGO_TARGET_DIR/debug/$crate" "$id"
