#!/bin/bash
# Nothing is built: check that what the checks use is there.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -W ignore - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, websockets, cerberus, requests, vcorelib
print("hypothesis", hypothesis.__version__)
PY
