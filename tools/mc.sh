#!/bin/bash
# Development helper: run TLC on a design model, short output.  mc.sh Module [cfg] [args]
cd "$(dirname "$0")/../spec"; m=$1; c=${2:-$1.cfg}; shift; shift
d=$(mktemp -d /tmp/mcXXXX)
(time timeout ${T:-600} tlc -workers ${WK:-4} -metadir $d -deadlock -config $c "$@" $m.tla) 2>&1 | grep -v "^Parsing\|^Semantic\|^Linting\|^Starting\|^TLC2\|^Running\|^$" | cut -c1-${W:-300} | head -${L:-40}
rm -rf /tmp/${d#/tmp/}
