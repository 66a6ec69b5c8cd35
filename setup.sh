#!/bin/bash
# nothing to build: the checks run /repo's sources directly; make sure that the interpreter is there
set -e
/opt/venv/bin/python -B -c 'import numpy, sys; print(sys.version)'
mkdir -p "$(dirname "$(realpath "$0")")/evidence"
