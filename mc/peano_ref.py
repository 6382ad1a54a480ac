"""The reference Peano-Hilbert keys (models/peano_ref.c), compiled on first use"""
import ctypes
import os
import subprocess
import tempfile
import numpy as np

_lib = None


def _load():
    global _lib
    if _lib is None:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        d = tempfile.mkdtemp(prefix="verif-ph-")
        so = os.path.join(d, "ref.so")
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", os.path.join(here, "models", "peano_ref.c"), "-o", so], check=True)
        _lib = ctypes.CDLL(so)
        os.unlink(so)
        os.rmdir(d)
    return _lib


def keys(x, y, z, bits):
    x, y, z = (np.ascontiguousarray(a, dtype=np.int64).ravel() for a in (x, y, z))
    out = np.empty(len(x), dtype=np.int64)
    p = lambda a: a.ctypes.data_as(ctypes.c_void_p)
    _load().ref_keys(ctypes.c_longlong(len(x)), p(x), p(y), p(z), ctypes.c_int(bits), p(out))
    return out
