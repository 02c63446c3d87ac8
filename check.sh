#!/bin/bash
# ./check.sh <property> [quick|thorough] [family ...]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
       MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec /opt/venv/bin/python mc/run.py "$@"
