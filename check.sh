#!/bin/bash
# check.sh <property> [quick|thorough]   |   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:/opt/veriftools/pyvenv/lib/python3.12/site-packages"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m pyvc.run "$@"
