#!/bin/bash
# check.sh <property id>: decide one property on the working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/setup.sh" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="${HAROLD_TREE:-/repo}"
scratch="$(mktemp -d)"
export MPLCONFIGDIR="$scratch"
/opt/venv/bin/python "$here/harness/check.py" "$1"
code=$?
rm -rf "$scratch"
exit $code
