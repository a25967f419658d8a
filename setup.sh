#!/bin/bash
# Nothing to compile: check that the simulator can load nnx from /repo behind its seams.
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH=$PWD
mkdir -p .out evidence
exec /opt/venv/bin/python -c "from dst import env; env.load(); print('nnx loaded from', env.NNX_DIR)"
