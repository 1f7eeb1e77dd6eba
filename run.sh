#!/bin/bash
# usage: run.sh C01 [quick|thorough] [--only group]
cd "$(dirname "$0")" || exit 1
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH=$PWD MPLBACKEND=agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
MPLCONFIGDIR=$(mktemp -d) || exit 1
export MPLCONFIGDIR
# nothing of the caller's working folder is used: scratch files go to a private folder
python -c 'import sys; from mc.core import main; sys.exit(main(sys.argv[1:]))' "$@"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
