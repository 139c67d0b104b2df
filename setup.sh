#!/bin/bash
# Nothing is compiled: checks that Hypothesis and the code under test can be imported.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '$here')
from vf.boot import boot; boot()
import hypothesis; print('hypothesis', hypothesis.__version__)"
