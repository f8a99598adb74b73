"""Puts the process in a defined state and imports harold from the work tree.

Must be imported before numpy.  Installs the seams that have to be in place
when harold is imported (locks) and afterwards (random number sources).
"""
import os
import sys

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS",
           "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

from . import locks  # noqa: E402

locks.install()

import random  # noqa: E402
import warnings  # noqa: E402

import numpy as np  # noqa: E402
import scipy.linalg  # noqa: E402,F401
import scipy.stats  # noqa: E402,F401
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402,F401

# ------------------------------------------------- uninitialised memory seam
_real_empty, _real_empty_like = np.empty, np.empty_like
_poison = [None]


def set_poison(v):
    """What fresh arrays contain that harold has not filled (None: real)."""
    _poison[0] = v


def _fill(a):
    v = _poison[0]
    if v is not None and a.size and a.dtype.kind in "fc" and \
            sys._getframe(2).f_globals.get("__name__", "")[:6] == "harold":
        a.fill(v)
    return a


def empty(*args, **kw):
    return _fill(_real_empty(*args, **kw))


def empty_like(*args, **kw):
    return _fill(_real_empty_like(*args, **kw))


np.empty, np.empty_like = empty, empty_like

import harold  # noqa: E402

HDIR = os.path.dirname(os.path.abspath(harold.__file__)) + os.sep
if not HDIR.startswith(REPO + os.sep):
    raise RuntimeError("harold was imported from %s, not from %s"
                       % (HDIR, REPO))

# co_filename strings as the interpreter spells them for harold code
_hcache = {}


def is_harold_file(fn):
    r = _hcache.get(fn)
    if r is None:
        ab = os.path.abspath(fn)
        r = ab.startswith(HDIR) and not ab.startswith(HDIR + "tests" + os.sep)
        _hcache[fn] = r
    return r


locks.is_harold_file = is_harold_file

# ------------------------------------------------------- random number seam
_real_default_rng = np.random.default_rng
_real_RandomState = np.random.RandomState
_entropy = random.Random(0)
entropy_draws = [0]


def _default_rng(seed=None):
    if seed is None:
        entropy_draws[0] += 1
        seed = _entropy.getrandbits(64)
    return _real_default_rng(seed)


def seed_all(seed):
    """Set every source of randomness from one integer."""
    np.random.seed(seed & 0xffffffff)
    random.seed(seed)
    _entropy.seed(seed)


np.random.default_rng = _default_rng

warnings.simplefilter("ignore")
seed_all(0)
