#!/bin/bash
# usage: bash check.sh <PROPERTY-ID> [quick|thorough] [--replay FILE] [--only CHECK]
# Runs the generated-input search that decides one property against the
# working tree of /repo.  Exit 0 held, 1 violated (prints VIOLATION), 2 error.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME PYTEST_ADDOPTS
scratch=$(mktemp -d "${TMPDIR:-/tmp}/qmixpbt.XXXXXX") || exit 2
export MPLCONFIGDIR="$scratch/mpl" QMIX_PBT_SCRATCH="$scratch"
mkdir -p "$MPLCONFIGDIR"
trap 'rm -rf -- "$scratch"' EXIT
cd "$here" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -W ignore -m pbt.core "$@"
