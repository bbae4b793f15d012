#!/bin/bash
# Nothing is compiled; verify that the interpreter and the package under test can be imported.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out/log out/replays out/mpl
PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg MPLCONFIGDIR="$PWD/out/mpl" \
PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" "${VERIF_PYTHON:-/opt/venv/bin/python}" -c 'import numpy, jax, cyjax, sim.core'
