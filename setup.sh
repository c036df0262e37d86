#!/bin/bash
# nothing to build: the checks read /repo's sources on every run; verify that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python3 -c 'import z3; print("z3", z3.get_version_string())'
/opt/venv/bin/python -c 'import six, yaml; print("runtime dependencies present")'
