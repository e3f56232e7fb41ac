#!/bin/bash
# Builds every harness (each check rebuilds its own again, incrementally).
set -u
cd "$(dirname "${BASH_SOURCE[0]}")" && . ws/env.sh
mkdir -p build evidence
python3 ws/mkws.py || exit 1
cd build/ws || exit 1
rc=0
# One by one, as the checks build them: cargo unites the features of what it builds together, so that a dependency built for
# all of them at once is another one than that built for one of them.
for c in $(awk '$2 ~ /^h-/ { print $2 }' "$VERIF/harness/map.txt" | sort -u); do
    cargo build --offline -q -p "$c" 2>&1 | tail -n 20
    [ "${PIPESTATUS[0]}" -eq 0 ] || rc=1
done
exit $rc
