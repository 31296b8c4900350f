#!/bin/bash
# Nothing to compile: check that the interpreter, the library and the oracle load.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
mkdir -p evidence
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
MPLCONFIGDIR=$(mktemp -d /tmp/gmon-mpl.XXXXXX); export MPLCONFIGDIR
trap '/bin/rm -rf "$MPLCONFIGDIR"' EXIT
exec_py() { /opt/venv/bin/python "$@"; }
exec_py -c "import gmon.core, glimpse; print('glimpse', glimpse.__file__)"
