#!/bin/bash
# Nothing to build: check that the solver and the repository import.
cd "$(dirname "$0")" || exit 3
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c '
import sys
sys.path.insert(0, "."); sys.path.insert(0, "/repo")
from symex.z3env import z3
import symex.run, pyvbmc
print("z3", z3.get_version_string(), "ok")
'
