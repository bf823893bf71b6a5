"""Process set-up: determinism settings, RNG shims, then the package under test from REPO."""
import os
import sys
import warnings

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

REPO = os.path.realpath(os.environ.get("STOQ_REPO", "/repo"))
VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
np.seterr(all="ignore")

from . import rng  # noqa: E402  (installs the shims; must precede the package import)

import scipy.linalg, scipy.sparse, scipy.stats  # noqa: E402,E401,F401

_pp = sys.pycache_prefix
sys.pycache_prefix = "/nonexistent-pycache"   # never trust bytecode for the code under test
import stoqcompiler  # noqa: E402
import stoqcompiler.compiler, stoqcompiler.hamiltonian, stoqcompiler.unitary, stoqcompiler.verification  # noqa
sys.pycache_prefix = _pp
assert os.path.realpath(stoqcompiler.__file__).startswith(REPO + os.sep), stoqcompiler.__file__
