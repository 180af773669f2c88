#!/bin/bash
# Nothing to compile: checks the interpreter and the simulator import.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=.:/repo /opt/venv/bin/python -c "
from dst import seams
seams.install_early()
import dst.runner, dst.net, dst.disk, pvlib
print('pvlib', pvlib.__version__, 'from', pvlib.__file__)"
