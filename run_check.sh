#!/bin/bash
# usage: run_check.sh ID [--replay FILE]; environment: VERIF_SEED, VERIF_TIER
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
[ -d /opt/qrisp-cache/mpl ] && export MPLCONFIGDIR=/opt/qrisp-cache/mpl
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python -W ignore harness/run.py "$@"
