#!/bin/bash
# bash tools/survey.sh C04 2000 [base]
cd "$(dirname "$0")/.." || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
exec timeout ${LIM:-800} /opt/venv/bin/python tools/survey.py "$@"
