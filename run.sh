#!/bin/bash
# bash run.sh PROPERTY [quick|thorough]            explore the property's bounded space
# bash run.sh PROPERTY --replay FILE               re-execute one recorded violation
# Every run imports /repo's working tree with empty numba / bytecode caches (both look only at the file a
# function is in, so a stale cache could hide a change), with array bounds checking compiled in, and with malloc
# filling new memory with a large value, so that memory read before it is written shows.
cd "$(dirname "$0")" || exit 2
WORK=$(mktemp -d) || exit 2
trap 'rm -rf "$WORK"' EXIT
export HOME="$WORK" NUMBA_CACHE_DIR="$WORK/numba" PYTHONPYCACHEPREFIX="$WORK/pyc" TMPDIR="$WORK"
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
export NUMBA_BOUNDSCHECK=1 NUMBA_NUM_THREADS=1 MALLOC_PERTURB_=191
unset PYTHONDONTWRITEBYTECODE PYTHONPATH NUMBA_DISABLE_JIT
/opt/venv/bin/python -m mc.main "$@"
exit $?
