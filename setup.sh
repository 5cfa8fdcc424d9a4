#!/bin/sh
# Nothing to build (pure Python): check that the interpreter, the library and hypothesis are importable.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. exec /opt/venv/bin/python -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, rigid_body_motion, lib.harness
print('hypothesis', hypothesis.__version__, 'code under test', rigid_body_motion.__file__)"
