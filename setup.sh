#!/bin/bash
# Nothing to compile: goats is pure Python, imported from /repo/src at check time.
cd "$(dirname "$0")" && mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo/src'); sys.dont_write_bytecode = True
import numpy, scipy, netCDF4, goats
print('setup ok', goats.__file__)"
