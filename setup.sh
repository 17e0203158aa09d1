#!/bin/bash
# Nothing to build ahead of time: every check builds the C library from /repo's current tree
# into its own scratch directory. This only makes sure that the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import numpy, scipy, obspy, pandas, pyproj" && gcc --version >/dev/null
