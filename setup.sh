#!/bin/bash
# Nothing is compiled: this only checks that the interpreter, Hypothesis and
# the property modules load.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HOME="${HOME:-/root}"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore - <<'P'
import glob, importlib, os
import pbt.core
n = 0
for f in sorted(glob.glob("pbt/props/c*.py")):
    m = importlib.import_module("pbt.props." + os.path.basename(f)[:-3])
    n += len(m.CHECKS)
print("%d checks load" % n)
P
