#!/bin/sh
# Nothing to compile: the checks run the working tree of /repo in the installed interpreter.
cd "$(dirname "$0")" && chmod +x run.py && mkdir -p evidence replays && /opt/veriftools/pyvenv/bin/python -c "import hypothesis" && /opt/venv/bin/python -c "import numpy"
