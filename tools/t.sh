#!/bin/bash
# Development helper: parse the specs, then run checks with shortened output.
cd "$(dirname "$0")/.."
out=$(tools/sany.sh 2>&1); if [ -n "$out" ]; then echo "$out" | head -20; exit 1; fi
for p in "$@"; do ./run.sh $p 2>&1 | cut -c1-${W:-900} | tail -${L:-14}; done
