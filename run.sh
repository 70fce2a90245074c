#!/bin/bash
# run.sh <property> <quick|thorough>   |   run.sh replay <file>
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 PYTHONWARNINGS=ignore
# never take byte code from anywhere but the current source
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
exec /opt/venv/bin/python -B -m mc.runner "$@"
