#!/bin/bash
# run.sh <property id> [--replay FILE] : run one check against /repo's working tree.
cd "$(dirname "$0")"
[ -d .pydeps ] || bash setup.sh >/dev/null || exit 2
SCRATCH=$(mktemp -d /tmp/emc2check.XXXXXX) || exit 2
export VERIF_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 DASK_SCHEDULER=synchronous
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPATH="$PWD:$PWD/.pydeps:/repo" VERIF_ROOT="$PWD" HDF5_USE_FILE_LOCKING=FALSE
mkdir -p "$SCRATCH/mpl"
/opt/venv/bin/python -W ignore -m vlib.main "$@"
rc=$?
rm -rf "$SCRATCH"
exit $rc
