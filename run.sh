#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
export PYTHONWARNINGS=ignore
unset PYTHONPATH
exec /opt/pypyenv/bin/python mc/run.py "$@"
