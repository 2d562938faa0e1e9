#!/bin/bash
# Nothing to build: check that the interpreter and the code under test import.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "
from mon import env
B, m = env.load()
print('matrix from', m.__file__)"
