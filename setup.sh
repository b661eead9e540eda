#!/bin/bash
# Nothing to compile: checks that the interpreter and the libraries the simulator drives are present.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence/replays
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -B -c "import numpy, scipy, libpysal, esda, mapclassify, quantecon, matplotlib, seaborn, geopandas; print('setup ok: numpy', numpy.__version__)"
