#!/bin/bash
# usage: check.sh <property> [quick|thorough]    (tier defaults to $VERIF_TIER, then quick)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore run.py check "$@"
