#!/bin/bash
# check.sh PROPERTY [quick|thorough]
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
cd "$(dirname "$0")/.." || exit 3
[ -n "$2" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python harness/check.py "$1" < /dev/null
