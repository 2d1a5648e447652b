#!/bin/bash
# Nothing to build: the checks are Python and import siotls from /repo/src.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, cryptography; print('hypothesis', hypothesis.__version__, 'cryptography', cryptography.__version__)"
