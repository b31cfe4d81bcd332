#!/bin/bash
# nothing to build: checks that the interpreter, PyTorch and the solvers load
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c '
from vlib import solver, symtensor, engine, harness
import z3, cvc5, torch
print("z3", z3.get_version_string(), "torch", torch.__version__)'
