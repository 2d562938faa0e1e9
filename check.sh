#!/bin/bash
# check.sh <property id> [quick|thorough] [--replay file]
export HOME=${HOME:-/root} LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_ENABLE_X64=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python run.py "$@"
