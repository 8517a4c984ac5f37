#!/bin/sh
# Nothing is built; checks that the pieces the checks need are there.
cd "$(dirname "$0")" && exec ${VERIF_PYTHON:-/opt/venv/bin/python} -c "
import sys; sys.path.insert(0, 'pbt')
import run; run.locate_hypothesis()
import hypothesis, torch, numpy
print('hypothesis', hypothesis.__version__, 'torch', torch.__version__, 'numpy', numpy.__version__)"
