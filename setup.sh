#!/bin/bash
# Nothing to compile: the checks import /repo directly. Verify that the interpreter is there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, torch, sklearn; print('ok', numpy.__version__, torch.__version__)"
