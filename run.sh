#!/bin/bash
# bash run.sh C01 [quick|thorough]      run one check (tier defaults to $VERIF_TIER, else quick)
# bash run.sh replay FILE               re-run the task of a recorded violation
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m mc "$@"
