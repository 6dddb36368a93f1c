#!/bin/bash
# bash /verif/run.sh C01 [--tier quick|thorough] [--seed N]   |   bash /verif/run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
PY=${SIMLAB_PYTHON:-/opt/venv/bin/python}
exec "$PY" -m simlab.runner "$@"
