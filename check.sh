#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE]
# Runs one model-checking harness against the real code in /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="${QSYMM_REPO:-/repo}:$PWD"
exec /opt/venv/bin/python -m mc.run "$@"
