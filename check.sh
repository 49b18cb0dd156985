#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   |   check.sh --replay <file>
# Runs one monitor against /repo's current working tree (pure Python, imported in place).
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 VTK_SMP_MAX_THREADS=1
export PYTHONPATH="${VMON_REPO:-/repo}:$here"
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/tmp" "$work/mpl"
export TMPDIR="$work/tmp" MPLCONFIGDIR="$work/mpl"
/opt/venv/bin/python -m vmon "$@"
