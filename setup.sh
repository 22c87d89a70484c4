#!/bin/bash
# Nothing to build: checks that the solver and the libraries can be imported.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu /opt/venv/bin/python -c "
import symx, z3
from symx import harness, run, arr, funcs
print('z3', z3.get_version_string())"
