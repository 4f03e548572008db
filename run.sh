#!/bin/bash
# usage: run.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--profile]
cd "$(dirname "$0")" || exit 3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
exec "$PY" -m mc.check "$@"
