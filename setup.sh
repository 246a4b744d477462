#!/bin/bash
# Nothing to build: checks import the code from /repo.  Fails early when an
# interpreter or library is missing.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, hypothesis, matplotlib
import pygfunction
PY
echo ready
