#!/bin/bash
# usage: ./run.sh <PROPERTY-ID> [quick|thorough]   (or: ./run.sh --replay FILE)
# Always executes the source of /repo's current working tree: no bytecode of an earlier version is read.
cd "$(dirname "$0")" || exit 2
S=$(mktemp -d /tmp/aerokit-mc.XXXXXX) || exit 2
trap 'rm -rf -- "$S"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$S/pyc" MPLCONFIGDIR="$S/mpl" MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0 HOME="$S" MC_SCRATCH="$S"
export PYTHONPATH="${MC_REPO:-/repo}:$PWD"
mkdir -p "$S/mpl"
/opt/venv/bin/python -W ignore -m mc.main "$@"
exit $?
