#!/bin/bash
# parses the specifications given (or all of them)
cd "$(dirname "$0")/../spec"
for m in ${@:-*.tla}; do
  java -cp "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY -error-codes "$m" 2>&1 | sort -u | grep -v "^Linting\|SANY2\|^Parsing\|^Semantic\|^SANY\|^\*\*\*\*\* SANY\|^$" 
done
