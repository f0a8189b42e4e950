#!/bin/sh
# Nothing to compile: checks that the interpreter, the solvers and the code under test can be imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'lib')
from vk import env, sym
sym.install_math()
env.import_repo()
import z3, stim, pysat
print('z3', z3.get_version_string(), 'stim', stim.__version__, 'pysat', pysat.__version__)
"
