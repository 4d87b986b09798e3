#!/bin/bash
# run.sh PROPERTY [--replay FILE | --only WORKLOAD]
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
unset PYTHONPATH PYTHONSTARTUP PYTHONWARNINGS
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
PY=${VERIF_PYTHON:-/opt/venv/bin/python}
scratch=$(mktemp -d /tmp/verif-XXXXXX) || exit 3
export VERIF_SCRATCH=$scratch
# Byte code of the library is never read from (or written to) the repository:
"$PY" -X pycache_prefix="$scratch/pyc" harness/run.py "$@"
rc=$?
find "$scratch" -depth -delete 2>/dev/null
exit $rc
