#!/bin/bash
# run.sh <property> [options]  - runs one check against /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 QT_QPA_PLATFORM=offscreen MPLBACKEND=agg \
       OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" check.py "$@"
