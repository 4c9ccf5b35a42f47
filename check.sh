#!/bin/bash
# ./check.sh <PID>: run the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMPI_MCA_ess_singleton_isolated=1 \
       OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 \
       OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
exec /opt/venv/bin/python -B -m mc.run "$@"
