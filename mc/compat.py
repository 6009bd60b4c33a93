"""Run the repository's code on what is installed here.

The repository pins numpy 1.21.1, numba 0.53.1 and gmpy2 2.0.8, none of which
exists for the Python in this sandbox.  Importing this module
  * puts the repository (env VERIF_REPO, default /repo) on sys.path,
  * adds /opt/venv's pure-Python protobuf and pycryptodomex at the END of sys.path,
  * adds stand-ins for gmpy2 and numba (mc/shims),
  * gives numpy 2.x back the two numpy 1.21 behaviours the code relies on:
    float()/int() of a one-element array, and np.array() of a ragged list
    falling back to an object array,
  * keeps byte code out of the repository and ignores any stale __pycache__.
Nothing in the repository is changed.
"""
import atexit
import ctypes
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-pycache"   # never read /repo's __pycache__

os.environ["PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION"] = "python"
_SHIMS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shims")
for _p in (REPO,):
    if _p in sys.path:
        sys.path.remove(_p)
sys.path.insert(0, REPO)
sys.path.append(_SHIMS)
for _v in ("/opt/venv/lib/python3.12/site-packages",):
    if _v not in sys.path:
        sys.path.append(_v)

warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402


# --- numpy 1.21: float(np.array([x])) and int(np.array([x])) ----------------
_UNARY = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)


@_UNARY
def _nb_float(arr):
    # a non-float result makes float() raise TypeError, as numpy 1.21 does
    return float(arr.item()) if arr.size == 1 else None


@_UNARY
def _nb_int(arr):
    return int(arr.item()) if arr.size == 1 else None


def _patch_number_slot(tp, index, fn):
    # PyTypeObject.tp_as_number is the 13th pointer-sized field (CPython 3.12)
    as_number = ctypes.c_void_p.from_address(id(tp) + 12 * 8).value
    slot = ctypes.c_void_p.from_address(as_number + index * 8)
    slot.value = ctypes.cast(fn, ctypes.c_void_p).value


try:
    float(np.zeros(1))
except TypeError:
    _patch_number_slot(np.ndarray, 16, _nb_int)     # nb_int
    _patch_number_slot(np.ndarray, 18, _nb_float)   # nb_float
assert float(np.array([1.5])) == 1.5 and int(np.array([7.0])) == 7
for _conv in (float, int):
    try:
        _conv(np.zeros(2))
        raise SystemExit("compat: converting an array of two must fail")
    except TypeError:
        pass


# --- numpy 1.21: ragged np.array(list) gives an object array ------------------
def _ragged(fn):
    def wrapper(obj, *args, **kwargs):
        try:
            return fn(obj, *args, **kwargs)
        except ValueError as e:
            if "inhomogeneous" in str(e) and not args and "dtype" not in kwargs:
                return fn(obj, dtype=object, **kwargs)
            raise
    wrapper.__name__ = fn.__name__
    return wrapper


if not getattr(np.array, "_verif", False):
    np.array = _ragged(np.array)
    np.asarray = _ragged(np.asarray)
    np.array._verif = True

np.seterr(all="ignore")


def quiet_repo_logging():
    """LOGGER prints; switch it off (presentation only)."""
    try:
        from ml.utils import logger as _l
        for k in _l.LOGGER.mask:
            _l.LOGGER.mask[k] = False
    except Exception:
        pass
    import logging
    logging.getLogger().setLevel(logging.ERROR)
    logging.raiseExceptions = False


quiet_repo_logging()
