#!/bin/bash
# exit 0: the property holds in this tree; else it does not
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
exec /opt/venv-pypy/bin/python "$here/demo.py"
