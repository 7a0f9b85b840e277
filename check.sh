#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3 -c 'import sys; sys.argv[0]="run"; from sa import run; run.main()' "$@"
