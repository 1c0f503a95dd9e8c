#!/bin/bash
# Nothing to compile: confirm that the interpreter, the package and the harness import.
cd "$(dirname "$(realpath "$0")")" || exit 2
mkdir -p evidence replays
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
exec /opt/venv/bin/python -c "import jax, numpy, scipy, h5py, diffmah, mc.core, mc.run, mc.ref; print('setup ok')"
