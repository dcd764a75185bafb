#!/bin/bash
# usage: replay.sh replays/C01.json -- runs one recorded counterexample on the real code
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m symx.replay "$@"
