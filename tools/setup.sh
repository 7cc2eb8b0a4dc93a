#!/bin/bash
# Checks that everything the checks need is there: the specifications parse, the library imports.
cd "$(dirname "$0")/.." || exit 1
out=$(tools/sany.sh 2>&1)
if [ -n "$out" ]; then echo "$out" | head -40; exit 1; fi
. /opt/vp/env.sh
cd /repo && PYTHONDONTWRITEBYTECODE=1 "${PY:-/opt/venv/bin/python}" -c "import raster_tools; print(raster_tools.__file__)"
