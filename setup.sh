#!/bin/bash
# Nothing to build (pure Python): checks that the interpreter, numpy, sympy, Hypothesis and FIAT can be imported.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -W ignore -c "
import sys; sys.path.insert(0, 'pbt'); import main; main.setup_path(); import FIAT, hypothesis, numpy; print('FIAT', FIAT.__file__, 'hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)"
