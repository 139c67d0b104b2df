#!/bin/bash
# usage: bash check.sh <PROPERTY> [quick|thorough]     (or: check.sh <PROPERTY> --replay FILE)
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PIP_NO_INDEX=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH= PYTHONNOUSERSITE=1 PYTHONUNBUFFERED=1 PYTHONWARNINGS=ignore
export MPLCONFIGDIR="${TMPDIR:-/tmp}/verif-mpl-$$"
mkdir -p "$MPLCONFIGDIR"
/opt/venv/bin/python "$here/vf/main.py" "$@"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
