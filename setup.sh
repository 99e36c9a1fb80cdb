#!/bin/bash
# Nothing is built: checks that the interpreter, CasADi and the repository can be imported.
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/repo
cd "$(dirname "$0")" && mkdir -p evidence && exec /opt/venv/bin/python -W ignore -c "import casadi, numpy, casadi_extras"
