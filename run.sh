#!/bin/bash
# bash /verif/run.sh C01            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
# bash /verif/run.sh C01 --replay F re-run one saved case without Hypothesis
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH
cd "$HERE" || exit 2
exec python -W ignore "$HERE/harness/main.py" "$@"
