#!/bin/bash
# Nothing is prebuilt: each check compiles what it needs from /repo's current tree.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B -c "import numpy, numba, h5py, scipy" && mkdir -p evidence replays
