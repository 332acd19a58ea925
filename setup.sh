#!/bin/bash
# Nothing is compiled: checks that the interpreter and the code under test load.
cd "$(dirname "$(realpath "$0")")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "import dtfabric, dfdatetime, yaml, vf.core"
