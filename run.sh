#!/bin/bash
# run.sh ID [args]: decides one property against the current working tree of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -m sim.core "$@"
