#!/bin/bash
# usage: check.sh <property id> quick|thorough        (or: check.sh <property id> replay <file>)
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$work/mpl" TMPDIR="$work"
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TQDM_DISABLE=1
mkdir -p "$work/mpl"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" rt/main.py "$@"
