"""Generated quantities: arrays with a compute domain, halo, padding and memory layout."""
import numpy as np
from hypothesis import strategies as st

from .arrays import MEMORY, X_DIMS, Y_DIMS, encode, filled, first_difference, rarely_large, same
from .core import require
from .fields import SCALAR_DTYPES

# quantities which are not exchanged may also have the byte order of a file
LOCAL_DTYPES = SCALAR_DTYPES + [">f8", ">i4"]

NAMES = ["x", "x_interface", "y", "y_interface", "z", "z_interface", "z_soil", "tile",
         "tracer", "land", "years", "x_wind"]
UNITS = ["m", "m/s", "", "K", "kg kg**-1", " m ", "dimensionless", "degrees_north"]


@st.composite
def quantities(draw, min_dims=0, max_dims=4, names=NAMES, dtypes=LOCAL_DTYPES,
               one_per_axis=False):
    n = draw(st.integers(min_dims, max_dims))
    pool = draw(st.permutations(names))
    if one_per_axis:
        chosen = []
        for name in pool:
            if name in X_DIMS and any(c in X_DIMS for c in chosen):
                continue
            if name in Y_DIMS and any(c in Y_DIMS for c in chosen):
                continue
            chosen.append(name)
        pool = chosen
    dims = list(pool[:n])
    axis = st.fixed_dictionaries(
        {"origin": st.integers(0, 3), "extent": st.integers(1, 4), "end": st.integers(0, 3)})
    axes = [draw(axis) for _ in dims]
    sizes = rarely_large(draw, [a["extent"] for a in axes], sizes=(17, 80, 131, 300))
    axes = [dict(a, extent=n) for a, n in zip(axes, sizes)]
    return {
        "dims": dims,
        "axes": axes,
        "dtype": draw(st.sampled_from(dtypes)),
        "memory": draw(st.sampled_from(MEMORY)),
        "units": draw(st.sampled_from(UNITS)),
    }


class Made:
    def __init__(self, util, spec, salt=0):
        self.spec = spec
        self.dims = tuple(spec["dims"])
        self.origin = tuple(a["origin"] for a in spec["axes"])
        self.extent = tuple(a["extent"] for a in spec["axes"])
        self.shape = tuple(a["origin"] + a["extent"] + a["end"] for a in spec["axes"])
        n = int(np.prod(self.shape, dtype=int))
        ids = np.arange(n).reshape(self.shape) + 31 * salt
        self.data = filled(encode(ids, spec["dtype"]), np.dtype(spec["dtype"]),
                           spec["memory"])
        self.quantity = util.Quantity(
            self.data, dims=self.dims, units=spec["units"], origin=self.origin,
            extent=self.extent)
        self.compute = tuple(slice(o, o + e) for o, e in zip(self.origin, self.extent))
        self.snap()

    def snap(self):
        self.saved = self.data.copy()

    def require_data(self, expected, what):
        require(same(self.data, expected),
                lambda: f"{what}: {first_difference(self.data, expected)}; dims {self.dims} "
                f"origin {self.origin} extent {self.extent} shape {self.shape}")


def numpy_index(positions):
    """Positions per axis (an int or a list of ints) -> an index for numpy."""
    return np.ix_(*[[p] if isinstance(p, int) else list(p) for p in positions])


def result_shape(positions):
    return tuple(len(p) for p in positions if not isinstance(p, int))


def addressed(array, positions):
    """Copy of the addressed points, with integer axes dropped."""
    if not positions:
        return array.copy()
    return array[numpy_index(positions)].reshape(result_shape(positions))


def check_access(made, view, index, positions, what, ctx, seed):
    """Read, alias, assign and augment through a view at an index; positions are what the
    index must address in the underlying array."""
    shape = result_shape(positions)
    size = int(np.prod(shape, dtype=int))
    with ctx.sut(f"{what}: reading"):
        got = view[index]
    want = addressed(made.data, positions)
    require(np.shape(got) == shape, f"{what}: shape {np.shape(got)}, expected {shape}")
    dtype = made.data.dtype
    if not shape and made.dims:
        dtype = dtype.newbyteorder("=")  # of a numpy scalar
    require(same(np.asarray(got, dtype=want.dtype), want) and np.asarray(got).dtype == dtype,
            lambda: f"{what}: {first_difference(np.asarray(got), want)}")
    if size and (shape or not made.dims):
        require(isinstance(got, np.ndarray) and np.shares_memory(got, made.data),
                f"{what}: reading made a copy")
    made.require_data(made.saved, f"{what}: reading changed the data")
    # assignment of an array and of a scalar
    kind = made.data.dtype.kind
    for value in (
        encode(np.arange(size).reshape(shape) + 500 + seed % 1000, made.data.dtype),
        np.ones((), made.data.dtype)[()],
    ):
        if kind == "b":
            value = np.logical_not(np.asarray(value))
            value = value if value.shape else value[()]
        expected = made.saved.copy()
        if positions:
            expected[numpy_index(positions)] = np.broadcast_to(value, shape).reshape(
                [1 if isinstance(p, int) else len(p) for p in positions])
        else:
            expected[...] = value
        with ctx.sut(f"{what}: assigning"):
            view[index] = value
        made.require_data(expected, f"{what}: assigning")
        made.data[...] = made.saved
    if kind in "fic" and size:
        expected = made.saved.copy()
        one = np.ones((), made.data.dtype)[()]
        if positions:
            expected[numpy_index(positions)] += one
        else:
            expected += one
        with ctx.sut(f"{what}: augmented assignment"):
            view[index] += one
        made.require_data(expected, f"{what}: augmented assignment")
        made.data[...] = made.saved


def slice_positions(start, stop, step, shape):
    """Positions of a slice whose bounds are (non-negative) positions in the array; a stop
    of -1 means just before the first element."""
    if stop is not None and stop < 0:
        stop = None
    return list(range(*slice(start, stop, step).indices(shape)))
