#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--seed N]
# Runs one monitor against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pyc
export PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_NUM_THREADS=1 MPLBACKEND=Agg
# compiled kernels run with array bounds checking on (a sanitizer for njit code)
export NUMBA_BOUNDSCHECK=${NUMBA_BOUNDSCHECK:-1}
REPO=${VERIF_REPO:-/repo}
export PYTHONPATH="$here/standins:$REPO:$here/harness"
exec /opt/venv/bin/python "$here/harness/run_check.py" "$@"
