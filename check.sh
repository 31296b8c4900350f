#!/bin/bash
# check.sh <property> [args]: run one property's monitors against /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8 MPLBACKEND=agg PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
export CPL_LOG=/dev/null OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TZ=UTC
MPLCONFIGDIR=$(mktemp -d /tmp/gmon-mpl.XXXXXX); export MPLCONFIGDIR
trap '/bin/rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -m gmon "$@"
