#!/bin/bash
# nothing is built ahead of a check (every check rebuilds from /repo); verify that the tools are there
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, sympy, numpy'
/opt/venv/bin/python -c 'import numpy, Cython'
gcc --version >/dev/null; clang --version >/dev/null
mkdir -p evidence out
