#!/bin/sh
# Nothing is built: the checks run from the committed files.  Verify that the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
exec /opt/venv/bin/python -W ignore -c '
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jax, numpy, z3
print("jax", jax.__version__, "z3", z3.get_version_string())'
