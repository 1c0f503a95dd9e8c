#!/bin/bash
# run.sh <ID> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$(realpath "$0")")" || exit 2
export JAX_PLATFORMS=cpu OMP_NUM_THREADS=4 OPENBLAS_NUM_THREADS=4
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
export JAX_ENABLE_COMPILATION_CACHE=false MPLBACKEND=Agg
exec /opt/venv/bin/python -m mc.run "$@"
