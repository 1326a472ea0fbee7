#!/bin/sh
# run.sh <PID> | replay <file> | list | selftest      (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="${CTB_REPO:-/repo}"
exec /opt/venv/bin/python harness/main.py "$@"
