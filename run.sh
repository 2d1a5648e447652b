#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay FILE] [--sub NAME]
# Runs one property check against /repo's current working tree (pure Python: nothing to build).
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
unset PYTHONPATH
exec /opt/venv/bin/python -B "$HERE/run.py" "$@"
