#!/bin/bash
# builds the reference model (the checks build it themselves if it is missing)
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'mc'); sys.dont_write_bytecode = True
import lib; print(lib.ref_binary()); assert len(lib.ref_solve((16, 6, 2, 2))[0]) == 2"
