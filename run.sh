#!/bin/bash
# run.sh <property> [quick|thorough] [--only regex] [--replay file]
cd "$(dirname "$0")" || exit 3
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); from symex.run import cli; cli()' "$@"
