#!/bin/bash
# bash run.sh C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--only WORKLOAD]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python run.py "$@"
