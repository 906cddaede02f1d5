#!/bin/bash
# nothing to build: checks that the interpreter, solver and repository load
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -B -c "
import symex.engine, symex.shim
from symex.harness import setup_path
setup_path()
import cvx.covariance.ewma, cvx.covariance.combination, cvx.covariance.regularization
print('ok')"
