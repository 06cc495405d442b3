#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]      run one check
#        run.sh replay <FILE>                     re-run one recorded violation
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PIP_NO_INDEX=1
unset PYTHONPATH
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m harness.main "$@"
