#!/bin/bash
# check.sh PROP [--replay FILE]: explores one property against /repo's working tree.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMBA_DISABLE_PERFORMANCE_WARNINGS=1
cd "$(dirname "$0")" || exit 2
SCRATCH=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/mpl"
cp /opt/venv/mplconfig/fontlist*.json "$SCRATCH/mpl/" 2>/dev/null
export MPLCONFIGDIR="$SCRATCH/mpl" TMPDIR="$SCRATCH" NUMBA_CACHE_DIR="$SCRATCH"
export PYTHONPATH="/repo:$PWD"
/opt/venv/bin/python -m mc.run "$@"
exit $?
