#!/bin/bash
# usage: check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only MONITOR]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
MPLCONFIGDIR=$(mktemp -d /tmp/verif-mpl.XXXXXX); export MPLCONFIGDIR
trap '/bin/rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -m vlib.run "$@"
