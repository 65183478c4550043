#!/bin/bash
# Nothing has to be compiled: the checks are Python and import /repo's working tree. Verify the interpreter is usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$w" /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo')
import numpy, scipy, pandas, matplotlib, surfalize, rt.core
print('setup ok', surfalize.__file__)"
