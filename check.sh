#!/bin/sh
# check.sh PROPERTY  |  check.sh --replay FILE
cd "$(dirname "$0")" || exit 1
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python run.py "$@"
