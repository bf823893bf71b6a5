#!/bin/bash
# Nothing to build: pure Python on the interpreter /repo's own build uses.  Checks that it is usable.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import numpy, scipy, sys
import mc.boot
print("setup ok: python", sys.version.split()[0], "numpy", numpy.__version__, "scipy", scipy.__version__)
P
