#!/bin/sh
# usage: check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
# Runs one property's checks against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
scratch=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 3
# never read or write byte code next to the sources: always compile the current tree
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export VERIF_SCRATCH="$scratch"
trap 'rm -rf "$scratch"' EXIT INT TERM
cd "$scratch" || exit 3
PYTHONPATH="$here:/repo" /opt/venv/bin/python -W ignore -m vt.run "$@"
exit $?
