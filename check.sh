#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
if [ -n "$2" ]; then VERIF_TIER="$2"; export VERIF_TIER; fi
exec env PYTHONHASHSEED=0 /opt/venv/bin/python harness/check.py "$1"
