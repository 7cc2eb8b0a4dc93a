#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay FILE]
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH= NUMBA_NUM_THREADS=1 OMP_NUM_THREADS=1
exec "${PY:-/opt/venv/bin/python}" "$(dirname "$0")/run.py" "$@"
