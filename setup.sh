#!/bin/bash
# nothing to build: checks import /repo directly and compile C code in a scratch folder; verify the tools are there
cd "$(dirname "$0")" && mkdir -p evidence
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, z3
print("z3", z3.get_version_string(), "numpy", numpy.__version__)
P
command -v clang gcc >/dev/null
