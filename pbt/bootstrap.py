"""Process set-up shared by every check.

* third-party packages come from the interpreter's own environment (/opt/venv);
* hypothesis (and only what it needs) comes from the pre-installed tool venv;
* fv3gfs.util is imported from /repo's working tree (VERIF_REPO overrides this, for
  sensitivity experiments on scratch copies), never from stale byte code;
* numpy.empty is poisoned, so memory that the code under test forgets to fill has a
  deterministic, recognisable content instead of whatever the allocator returns.
"""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
TOOL_MODULES = {
    "hypothesis",
    "_hypothesis_ftz_detector",
    "_hypothesis_globals",
    "_hypothesis_pytestplugin",
    "sortedcontainers",
}

for _name in (
    "OMP_NUM_THREADS",
    "OPENBLAS_NUM_THREADS",
    "MKL_NUM_THREADS",
    "NUMEXPR_NUM_THREADS",
    "BLOSC_NTHREADS",
):
    os.environ.setdefault(_name, "1")

sys.dont_write_bytecode = True


class _ToolFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if path is None and name in TOOL_MODULES:
            return importlib.machinery.PathFinder.find_spec(name, [TOOL_SITE])
        return None


def _poison_numpy():
    import numpy as np

    original = np.empty

    def empty(shape, dtype=float, order="C", **kwargs):
        array = original(shape, dtype=dtype, order=order, **kwargs)
        if array.dtype.kind in "iufcb" and array.size:
            raw = array.view(np.uint8) if array.ndim and array.flags.c_contiguous else None
            if raw is not None:
                raw[...] = 0xC1 if array.dtype.kind != "b" else 1
            else:
                array.fill(np.frombuffer(b"\xc1" * array.itemsize, array.dtype)[0]
                           if array.dtype.kind != "b" else True)
        return array

    empty.__name__ = "empty"
    np.empty = empty


_done = False


def setup(devices=False):
    global _done
    if _done:
        return
    _done = True
    sys.meta_path.append(_ToolFinder())
    import warnings

    warnings.simplefilter("ignore")
    import numpy  # noqa: F401

    # third-party dependencies first: their byte code is trustworthy
    import cftime, fsspec, typing_extensions, xarray, zarr  # noqa: F401,E401
    import xarray.backends.scipy_  # noqa: F401

    _poison_numpy()
    if devices:
        from . import devices as stand_ins

        stand_ins.install()
    old_prefix = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-pycache"
    for name in [m for m in sys.modules if m == "fv3gfs" or m.startswith("fv3gfs.")]:
        del sys.modules[name]
    sys.path.insert(0, REPO)
    import fv3gfs.util
    import fv3gfs.util.io  # noqa: F401
    import fv3gfs.util.rotate  # noqa: F401
    import fv3gfs.util.testing  # noqa: F401

    sys.pycache_prefix = old_prefix
    where = os.path.realpath(fv3gfs.util.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"fv3gfs.util imported from {where}, not from {REPO}")
