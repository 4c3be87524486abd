#!/bin/bash
# check.sh ID : the check of one property (tier from $VERIF_TIER, seed from $VERIF_SEED)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python "$here/run.py" "$@"
