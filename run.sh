#!/bin/sh
# run.sh <PROPERTY> <tier>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python run.py "$1" --tier "${2:-quick}"
