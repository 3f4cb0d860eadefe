#!/bin/bash
# dev helper: ./dev.sh [-b] ENTRIES [engine args]  (-b: rebuild the IR first)
cd "$(dirname "$0")"
if [ "$1" = -b ]; then shift; ./emit.sh 2>&1 | grep -E "^(warning: unused|error)|-->|^ *\|" | head -60; fi
E1=$1; shift
ls target/release/deps/harness-*.ll >/dev/null || exit 1
timeout 800 engine/target/release/symex --ir $(ls target/release/deps/harness-*.ll) --entry $E1 --timeout 120 --out /tmp/o.json "$@" 2>&1 | cut -c1-1500
