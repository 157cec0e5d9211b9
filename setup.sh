#!/bin/bash
# Nothing to build: only make sure the interpreter and the library are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, torch, dotmap, loguru, pandas" || exit 1
exit 0
