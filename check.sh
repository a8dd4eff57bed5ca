#!/bin/sh
# ./check.sh <property> [quick|thorough]   or   ./check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -m dv.check "$@"
