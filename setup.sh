#!/bin/bash
# Nothing to build: /repo is pure Python and is compiled by the simulator
# itself, from the working tree, at every run.  Make sure it starts.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec "${GM_SIM_PY:-/opt/venv-pypy/bin/python}" -B -c '
from sim import proc
proc.setup()
p = proc.Process()
assert p.gm.__version__ == "2.15.0"
print("simulator ready")
'
