#!/bin/bash
# Nothing to build: check that the interpreter and the simulator load.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" /opt/venv/bin/python -c 'import greenlet, sim.runner' || exit 1
mkdir -p evidence replays
echo setup ok
