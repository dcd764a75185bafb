#!/bin/bash
# usage: check.sh PROPERTY [--tier T]; run from anywhere
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m symx.run "$@"
