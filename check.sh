#!/bin/bash
# usage: check.sh <PROPERTY> [extra args of run.py]
# decides one property against the working tree of /repo (or $VERIF_REPO)
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec "$py" -X faulthandler "$here/run.py" "$@"
