#!/bin/sh
# Nothing to build: the checks are Python and import /repo directly. Fail early if
# the interpreter or Hypothesis is missing.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg /opt/venv/bin/python -c 'import hypothesis, numpy, scipy, astropy, transforms3d'
echo setup ok
