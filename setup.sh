#!/bin/bash
# Nothing to build: checks that the interpreter, the solvers and the library are there.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:/opt/veriftools/pyvenv/lib/python3.12/site-packages" PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import z3, pycose, cbor2, specs.shapes; print('z3', z3.get_version_string(), 'pycose from', pycose.__file__)" && cvc5 --version | head -1
