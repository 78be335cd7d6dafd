#!/bin/sh
# nothing to build: the analyser is Python source; check that it can read the tree it is given
cd "$(dirname "$0")" || exit 3
PYTHONDONTWRITEBYTECODE=1 python3-vt -c "import numpy, gspsa.run; print('analyser ready')"
