"""Stand-ins for cupy and gt4py, which are not installed here.

They reproduce what matters to a caller: a device array refuses implicit conversion to a
numpy array and mixing with numpy arrays, basic indexing gives views (0-d arrays for single
points), numpy functions and ufuncs dispatch to the device module, MPI accepts contiguous
device arrays (CUDA-aware); a gt4py storage is a numpy subclass that owns memory in the
layout of its backend, a GPU storage with managed memory also has a `gpu_view`.  The memory
of a "device" is ordinary host memory, so the check can look at it.
"""
import sys
import types

import numpy as np

REFUSED = ("Implicit conversion to a NumPy array is not allowed. "
           "Please use `.get()` to construct a NumPy array explicitly.")
SCALARS = (bool, int, float, complex, np.generic)


def _inner(value):
    """Memory of an operand that may be combined with a device array."""
    if isinstance(value, ndarray):
        return value._memory
    if isinstance(value, SCALARS) or (isinstance(value, np.ndarray) and value.ndim == 0):
        return value
    raise TypeError(f"Unsupported type {type(value)}")


def _outer(value):
    if isinstance(value, np.ndarray):
        return wrap(value)
    if isinstance(value, np.generic):
        return wrap(np.asarray(value))
    if isinstance(value, tuple):
        return tuple(_outer(v) for v in value)
    return value


def wrap(memory):
    out = object.__new__(ndarray)
    out._memory = memory.view(np.ndarray) if type(memory) is not np.ndarray else memory
    return out


class _Index:
    @staticmethod
    def of(key):
        def one(k):
            if isinstance(k, np.ndarray) and k.ndim:
                raise IndexError("arrays of the host cannot index a device array")
            return k._memory if isinstance(k, ndarray) else k

        return tuple(one(k) for k in key) if isinstance(key, tuple) else one(key)


class ndarray(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 100

    def __new__(cls, shape, dtype=float, order="C"):
        return wrap(np.empty(shape, dtype, order=order))

    # what a caller sees of the metadata
    shape = property(lambda self: self._memory.shape)
    dtype = property(lambda self: self._memory.dtype)
    ndim = property(lambda self: self._memory.ndim)
    size = property(lambda self: self._memory.size)
    nbytes = property(lambda self: self._memory.nbytes)
    itemsize = property(lambda self: self._memory.itemsize)
    strides = property(lambda self: self._memory.strides)
    flags = property(lambda self: self._memory.flags)
    T = property(lambda self: wrap(self._memory.T))

    @property
    def __cuda_array_interface__(self):
        out = dict(self._memory.__array_interface__)
        out["version"] = 2
        return out

    def __array__(self, dtype=None, copy=None):
        raise TypeError(REFUSED)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        if out is not None:
            if not all(isinstance(o, ndarray) for o in out):
                return NotImplemented
            kwargs["out"] = tuple(o._memory for o in out)
        result = getattr(ufunc, method)(*[_inner(i) for i in inputs], **kwargs)
        return out[0] if out is not None and len(out) == 1 else _outer(result)

    def __array_function__(self, function, types_, args, kwargs):
        mine = getattr(sys.modules["cupy"], function.__name__, None)
        if mine is None:
            return NotImplemented
        return mine(*args, **kwargs)

    def __getitem__(self, key):
        got = self._memory[_Index.of(key)]
        if not isinstance(got, np.ndarray):  # a single point: still a view of the memory
            key = key if isinstance(key, tuple) else (key,)
            if Ellipsis not in key:
                key = key + (Ellipsis,)
            got = self._memory[_Index.of(key)]
        return wrap(got)

    def __setitem__(self, key, value):
        self._memory[_Index.of(key)] = _inner(value)

    def __len__(self):
        return len(self._memory)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __bool__(self):
        return bool(self._memory)

    def __int__(self):
        return int(self._memory)

    def __float__(self):
        return float(self._memory)

    def __repr__(self):
        return repr(self._memory)

    __str__ = __repr__

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        return (_rebuild, (self._memory.copy(),))

    def get(self):
        return self._memory.copy()

    def item(self):
        return self._memory.item()

    def tolist(self):
        return self._memory.tolist()


def _rebuild(memory):
    return wrap(memory)


def _method(name):
    def method(self, *args, **kwargs):
        return _outer(getattr(self._memory, name)(*[
            a._memory if isinstance(a, ndarray) else a for a in args], **kwargs))

    method.__name__ = name
    return method


for _name in ("copy", "astype", "reshape", "transpose", "swapaxes", "ravel", "flatten", "view",
              "fill", "sum", "mean", "min", "max", "all", "any", "squeeze", "conj"):
    setattr(ndarray, _name, _method(_name))


def asnumpy(a, stream=None, order="C"):
    return a._memory.copy() if isinstance(a, ndarray) else np.asarray(a, order=order)


def asarray(a, dtype=None, order=None):
    if isinstance(a, ndarray):
        return a if dtype is None or a.dtype == dtype else a.astype(dtype)
    if isinstance(a, GPUStorage):
        return a.gpu_view
    return wrap(np.array(a, dtype=dtype, order=order or "C"))


def array(a, dtype=None, copy=True, order="K"):
    memory = a._memory if isinstance(a, ndarray) else a
    return wrap(np.array(memory, dtype=dtype, order=order))


def ascontiguousarray(a, dtype=None):
    return wrap(np.ascontiguousarray(asarray(a)._memory, dtype=dtype))


def _creator(name):
    def create(shape, dtype=float, order="C"):
        return wrap(getattr(np, name)(shape, dtype=dtype, order=order))

    create.__name__ = name
    return create


def _function(name):
    def function(*args, **kwargs):
        def inner(value):
            if isinstance(value, ndarray):
                return value._memory
            if isinstance(value, np.ndarray) and value.ndim:
                raise TypeError(f"Unsupported type {type(value)}")
            if isinstance(value, (list, tuple)):
                return type(value)(inner(v) for v in value)
            return value

        return _outer(getattr(np, name)(
            *[inner(a) for a in args], **{k: inner(v) for k, v in kwargs.items()}))

    function.__name__ = name
    return function


# --- gt4py -----------------------------------------------------------------------------

CPU_BACKENDS = ("numpy", "debug", "gtx86", "gtmc")
GPU_BACKENDS = ("gtcuda",)


class Storage(np.ndarray):
    def __new__(cls, backend, default_origin, shape, dtype):
        shape = tuple(int(s) for s in shape)
        if any(s == 0 for s in shape):
            raise ValueError("storages of length zero are not supported")
        if backend == "gtx86":  # i fastest, rows padded for alignment
            padded = tuple(shape[:0:-1]) + (shape[0] + (-shape[0]) % 4,) if shape else ()
            memory = np.empty(padded, dtype).T[tuple(slice(0, s) for s in shape)]
        elif backend == "gtmc" and len(shape) >= 2:
            order = list(range(len(shape)))
            order[0], order[-1] = order[-1], order[0]
            memory = np.empty([shape[i] for i in order], dtype).transpose(order)
        elif backend == "gtcuda":
            memory = np.empty(shape, dtype, order="F")
        else:
            memory = np.empty(shape, dtype)
        out = memory.view(cls)
        out.backend, out.default_origin = backend, tuple(default_origin)
        return out

    def __array_finalize__(self, other):
        self.backend = getattr(other, "backend", None)
        self.default_origin = getattr(other, "default_origin", None)


class CPUStorage(Storage):
    @property
    def data(self):
        return self.view(np.ndarray)


class GPUStorage(Storage):
    """In managed memory: usable from both sides."""

    @property
    def data(self):
        return self.view(np.ndarray)

    @property
    def gpu_view(self):
        return wrap(self.view(np.ndarray))

    @property
    def __cuda_array_interface__(self):
        return self.gpu_view.__cuda_array_interface__

    def __setitem__(self, key, value):
        if isinstance(value, ndarray):
            value = value._memory
        super().__setitem__(key, value)


class ExplicitlySyncedGPUStorage(Storage):
    """Without managed memory: two copies, not usable here."""


def _storage_creator(fill):
    def create(backend, default_origin, shape, dtype, mask=None, *, managed_memory=False):
        if backend in CPU_BACKENDS:
            cls = CPUStorage
        elif backend in GPU_BACKENDS:
            cls = GPUStorage if managed_memory else ExplicitlySyncedGPUStorage
        else:
            raise ValueError(f"Backend {backend} is not registered")
        out = cls(backend, default_origin, shape, dtype)
        if fill is not None:
            out.view(np.ndarray)[...] = fill
        return out

    return create


def install():
    """Puts the stand-ins into sys.modules; before fv3gfs.util is imported."""
    cupy = types.ModuleType("cupy")
    cupy.ndarray, cupy.asnumpy, cupy.asarray, cupy.array = ndarray, asnumpy, asarray, array
    cupy.ascontiguousarray = ascontiguousarray
    cupy.__version__ = "8.0.0"
    for name in ("empty", "zeros", "ones"):
        setattr(cupy, name, _creator(name))
    for name in ("rot90", "flip", "transpose", "all", "any", "mean", "sum", "min", "max",
                 "copy", "concatenate", "stack", "moveaxis", "swapaxes", "roll", "where",
                 "empty_like", "zeros_like", "ones_like", "mod", "add", "negative", "copyto",
                 "isnan", "array_equal", "expand_dims", "squeeze", "reshape", "broadcast_to"):
        setattr(cupy, name, _function(name))
    for name in ("float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8",
                 "bool_", "complex128", "newaxis", "pi", "nan", "inf"):
        setattr(cupy, name, getattr(np, name))
    gt4py = types.ModuleType("gt4py")
    gt4py.__path__ = []
    package = types.ModuleType("gt4py.storage")
    package.__path__ = []
    module = types.ModuleType("gt4py.storage.storage")
    for name, fill in (("empty", None), ("zeros", 0), ("ones", 1)):
        creator = _storage_creator(fill)
        creator.__name__ = name
        setattr(module, name, creator)
        setattr(package, name, creator)
    for cls in (Storage, CPUStorage, GPUStorage, ExplicitlySyncedGPUStorage):
        setattr(module, cls.__name__, cls)
    gt4py.storage, package.storage = package, module
    sys.modules.update({"cupy": cupy, "gt4py": gt4py, "gt4py.storage": package,
                        "gt4py.storage.storage": module})


def array_type(backend):
    """Type of quantity.data for a backend of the check: numpy, cupy or gt:NAME."""
    return ndarray if backend in ("cupy", "gt:gtcuda") else np.ndarray


def host(value):
    """The memory behind any array of this module, shared."""
    if isinstance(value, ndarray):
        return value._memory
    return value.view(np.ndarray)
