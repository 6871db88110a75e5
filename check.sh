#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONPATH="/repo:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/venv/mplconfig}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
p="$1"; shift
tier="${1:-quick}"; [ $# -gt 0 ] && shift
exec /opt/venv/bin/python -m symex "$p" --tier "$tier" "$@"
