#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]      (VERIF_SEED, VERIF_TIER honoured)
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
case "$2" in quick|thorough) VERIF_TIER=$2;; esac
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
exec /opt/venv/bin/python -m vlib.main "$@"
