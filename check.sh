#!/bin/bash
# check.sh C01 [quick|thorough] | check.sh C01 --replay FILE [--trace]
cd "$(dirname "$0")" || exit 2
exec python3 -B -m sim.runner "$@"
