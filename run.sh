#!/bin/bash
# run.sh <PROPERTY> [cases] | run.sh replay <file>
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m vmon.main "$@"
