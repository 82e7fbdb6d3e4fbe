"""Building arrays and quantities of arbitrary memory layout, padding and dtype."""
import numpy as np
from hypothesis import strategies as st

X, XI, Y, YI = "x", "x_interface", "y", "y_interface"
Z, ZI, ZS, TILE = "z", "z_interface", "z_soil", "tile"
X_DIMS, Y_DIMS = (X, XI), (Y, YI)
INTERFACE = (XI, YI, ZI)
MEMORY = ("C", "F", "perm", "strided", "offset", "neg", "packed")

seeds = st.integers(0, 2 ** 32 - 1)


def rarely_large(draw, extents, one_in=24, sizes=(17, 80, 131, 300, 5001)):
    """In one case of some, one of the extents is that of a model and not of a test."""
    extents = list(extents)
    if extents and draw(st.integers(0, one_in - 1)) == one_in - 1:
        extents[draw(st.integers(0, len(extents) - 1))] = draw(st.sampled_from(sizes))
    return extents


def encode(ids, dtype, special=True):
    """Distinct, recognisable values of a dtype for integer ids >= 0; a few floating point
    values are zeros, infinities, missing or extreme values instead."""
    dtype = np.dtype(dtype)
    ids = np.asarray(ids, dtype=np.int64)
    if dtype.kind == "f" and special:
        info = np.finfo(dtype)
        table = np.array([0.0, np.nan, np.inf, -0.0, -np.inf, info.tiny / 4, info.max, 1.0],
                         dtype)
        return np.where(ids % 29 == 11, table[ids // 29 % len(table)],
                        encode(ids, dtype, special=False)).astype(dtype)
    if dtype.kind == "f":
        if dtype.itemsize == 2:
            return (ids % 2000 + 1).astype(dtype)
        if dtype.itemsize == 4:
            return (ids % (2 ** 20) + 1 + 0.1).astype(dtype)
        # not a value of any narrower type
        return (ids + 1 + 0.1).astype(dtype)
    if dtype.kind == "c":
        return (ids + 1).astype(dtype) + 1j * (ids % 1013 + 1).astype(dtype)
    if dtype.kind == "b":
        return ((ids * 2654435761) >> 7) % 2 == 1
    limit = int(np.iinfo(dtype).max)
    prime = max(p for p in (127, 251, 32749, 65521, 2147483647) if p <= limit)
    values = (ids * (7919 if prime > 60000 else 1)) % prime
    if limit > 2 ** 62:
        values = values + 2 ** 60  # not a value of a double
    return values.astype(dtype)


def allocate(shape, dtype, memory="C"):
    """Zeroed array of a shape whose memory layout is one of MEMORY."""
    shape = tuple(int(s) for s in shape)
    nd = len(shape)
    if nd == 0:
        return np.zeros(shape, dtype)
    if memory == "F":
        return np.zeros(shape, dtype, order="F")
    if memory == "perm":  # rotated axis order
        order = list(range(1, nd)) + [0]
        base = np.zeros([shape[i] for i in order], dtype)
        return base.transpose(np.argsort(order))
    if memory == "strided":
        base = np.zeros(shape[:-1] + (2 * shape[-1],), dtype)
        return base[..., ::2]
    if memory == "offset":  # interior of a larger array
        base = np.zeros([s + 2 for s in shape], dtype)
        return base[tuple(slice(1, 1 + s) for s in shape)]
    if memory == "packed":  # a field of records: neither contiguous nor aligned
        return np.zeros(shape, np.dtype([("flag", "i1"), ("value", dtype)]))["value"]
    if memory == "neg":
        base = np.zeros(shape, dtype)
        return base[tuple(slice(None, None, -1) for _ in shape)]
    return np.zeros(shape, dtype)


def filled(values, dtype, memory):
    out = allocate(values.shape, dtype, memory)
    out[...] = values
    return out


def same(a, b):
    """Bitwise-equal content (one missing value is as good as another), dtype and shape."""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.tobytes() == b.tobytes():
        return True
    if a.dtype.kind != "f":
        return False
    missing = np.isnan(a)
    return bool((missing == np.isnan(b)).all()) and (
        np.where(missing, 0, a).tobytes() == np.where(missing, 0, b).tobytes())


def agree(a, b):
    """Point by point: the same value, or missing on both sides."""
    with np.errstate(all="ignore"):
        return (a == b) | ((a != a) & (b != b))


def first_difference(actual, expected):
    actual, expected = np.asarray(actual), np.asarray(expected)
    if actual.shape != expected.shape:
        return f"shape {actual.shape} instead of {expected.shape}"
    if actual.dtype != expected.dtype:
        return f"dtype {actual.dtype} instead of {expected.dtype}"
    where = np.argwhere(~agree(actual, expected))
    if len(where) == 0:
        return "bitwise difference only"
    i = tuple(int(k) for k in where[0])
    return f"{len(where)} wrong values, first at {i}: {actual[i]!r} instead of {expected[i]!r}"


def schedules(sync_collectives=True):
    return st.fixed_dictionaries(
        {
            "mode": st.sampled_from(["late", "eager", "sync"]),
            "policy": st.sampled_from(
                ["random", "random", "roundrobin", "reverse", "greedy", "starve"]),
            "seed": seeds,
            "sync_coll": st.booleans() if sync_collectives else st.just(False),
        }
    )


def permutation(seed, items):
    from .core import LCG

    return LCG(seed).shuffled(items)
