#!/bin/bash
# check.sh C01 quick|thorough   |   check.sh replay FILE   |   check.sh selftest [N]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" -m simx.runner "$@"
