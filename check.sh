#!/bin/bash
# check.sh <PROPERTY> : run one check against /repo's current working tree
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" run.py "$@"
