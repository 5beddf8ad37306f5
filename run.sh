#!/bin/bash
# ./run.sh Cxx [args]: one check, against /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONPATH= PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= TF_USE_LEGACY_KERAS=1 JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HOME=${HOME:-/root}
exec /opt/venv/bin/python lib/runner.py "$@"
