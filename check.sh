#!/bin/sh
# usage: check.sh <property> [quick|thorough]     run one check
#        check.sh replay <file>                   replay a recorded violation
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH= PYTHONUNBUFFERED=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -m mc.runtime "$@"
