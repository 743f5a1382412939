#!/bin/bash
# Nothing to compile: check that the interpreter, the package and the harness import.
cd "$(dirname "$0")/.." || exit 2
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "import numpy, scipy, cdmir, vlib.core, vlib.graphs"
