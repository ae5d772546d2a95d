#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] [n=N] [seed=S] [-v]   |   check.sh replay FILE
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg \
  MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/ghedt-sim-mpl}" HOME="${HOME:-/root}" TZ=UTC LC_ALL=C.UTF-8 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
[ -d /opt/mplconfig ] && MPLCONFIGDIR=/opt/mplconfig
exec /opt/venv/bin/python -W ignore sim/run.py "$@"
