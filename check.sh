#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
# Runs the generated-input search for one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
scratch=$(mktemp -d "${TMPDIR:-/tmp}/pbt.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
unset PYTHONPATH PYTHONSTARTUP PYTHONHOME
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export PBT_SCRATCH="$scratch" LC_ALL=C.UTF-8
/opt/venv/bin/python -m pbt.runner --property "$@"
exit $?
