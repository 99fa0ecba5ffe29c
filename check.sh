#!/bin/bash
# check.sh Pxx [quick|thorough]
cd "$(dirname "$0")" || exit 3
exec env PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONPATH=/repo:"$PWD" /opt/venv/bin/python run.py "$@"
