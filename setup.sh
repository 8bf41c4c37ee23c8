#!/bin/bash
# nothing to compile: verify that interpreter and libraries are there
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
mkdir -p "$here/evidence"
cd "$here" && exec "$py" -c "import numpy, scipy, pandas, yaml, matplotlib, mon.core, mon.ref"
