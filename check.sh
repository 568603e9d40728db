#!/bin/bash
# ./check.sh <property> [--thorough] : run one check against /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg HOME=${HOME:-/root}
exec /opt/venv/bin/python -m symx.main "$@"
