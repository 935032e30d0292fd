#!/bin/bash
# nothing to build: verifies that the interpreter, Hypothesis and the package under test can be imported
cd "$(dirname "$0")" || exit 1
export PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import pbt.core, hypothesis, numpy, scipy, pibronic; print('hypothesis', hypothesis.__version__, 'pibronic', pibronic.__file__)"
