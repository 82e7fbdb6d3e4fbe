"""C29: rotations of gridded scalar and vector data obey the rotation group."""
import numpy as np
from hypothesis import strategies as st

from ..arrays import MEMORY, X_DIMS, Y_DIMS, encode, filled, first_difference, same
from ..core import require
from ..fields import SCALAR_DTYPES, VECTOR_DTYPES

OTHER = ["z", "z_interface", "tracer", "years", "x_wind", "my"]


@st.composite
def cases(draw, tier):
    horizontal = draw(st.sampled_from(["yx", "yx", "yx", "x", "y", ""]))
    dims = [draw(st.sampled_from(X_DIMS if h == "x" else Y_DIMS)) for h in horizontal]
    for o in draw(st.permutations(OTHER))[: draw(st.integers(0, 3))]:
        dims.append(o)
    dims = list(draw(st.permutations(dims)))
    vector = draw(st.booleans())
    return {
        "dims": dims,
        "shape": [draw(st.integers(0 if draw(st.integers(0, 19)) == 0 else 1, 5))
                  for _ in dims],
        "dtype": draw(st.sampled_from(VECTOR_DTYPES if vector else SCALAR_DTYPES)),
        "memory": draw(st.sampled_from(MEMORY)),
        "vector": vector,
        "turns": draw(st.lists(st.integers(-9, 9), min_size=1, max_size=4)),
        "boundary_turns": draw(st.integers(0, 8)),
    }


def strategy(tier):
    return cases(tier)


def quarter(dims, array):
    """One clockwise quarter turn, point by point: (x, y) -> (y, nx - 1 - x), in units of
    grid points; returns the new dims (a line along x becomes a line along y)."""
    xs = [k for k, d in enumerate(dims) if d in X_DIMS]
    ys = [k for k, d in enumerate(dims) if d in Y_DIMS]
    ix, iy = (xs or [None])[0], (ys or [None])[0]
    if ix is None and iy is None:
        return list(dims), array.copy()
    new_dims = list(dims)
    shape = list(array.shape)
    if ix is not None and iy is not None:
        shape[ix], shape[iy] = shape[iy], shape[ix]
    elif ix is not None:
        new_dims[ix] = "y"
    else:
        new_dims[iy] = "x"
    out = np.zeros(shape, array.dtype)
    for old in np.ndindex(*array.shape):
        new = list(old)
        if ix is not None and iy is not None:
            # the column of the new array counts along the old y, its row against old x
            new[ix], new[iy] = old[iy], array.shape[ix] - 1 - old[ix]
        elif ix is not None:
            new[ix] = array.shape[ix] - 1 - old[ix]
        out[tuple(new)] = array[old]
    return new_dims, out


def check(case, ctx):
    import fv3gfs.util as util
    from fv3gfs.util import rotate
    from fv3gfs.util.boundary import SimpleBoundary

    shape, dtype = case["shape"], np.dtype(case["dtype"])
    n = int(np.prod(shape, dtype=int))
    ids = np.arange(n).reshape(shape)
    arrays = [filled(encode(ids, dtype), dtype, case["memory"])]
    if case["vector"]:
        arrays.append(filled(encode(ids + n, dtype), dtype, case["memory"]))
    dims = list(case["dims"])
    before = [a.copy() for a in arrays]
    current, model, model_dims = list(arrays), [a.copy() for a in arrays], dims
    total = 0
    for turns in case["turns"]:
        with ctx.sut(f"rotation by {turns}"):
            if case["vector"]:
                current = list(rotate.rotate_vector_data(
                    current[0], current[1], turns, tuple(model_dims), np))
            else:
                current = [rotate.rotate_scalar_data(
                    current[0], tuple(model_dims), np, turns)]
        for _ in range(turns % 4):
            turned = [quarter(model_dims, a) for a in model]
            model_dims = turned[0][0]
            model = [t[1] for t in turned]
            if case["vector"]:
                # clockwise: what pointed along +y points along +x, +x along -y
                model = [model[1], -model[0]]
        total += turns
        what = f"dims {dims} shape {shape} turned by {case['turns']} (at {total})"
        for c, (got, want) in enumerate(zip(current, model)):
            require(same(got, want),
                    lambda: f"{what}, component {c}: {first_difference(got, want)}")
    # the turns taken together, and back again
    start_dims = dims
    with ctx.sut("composed rotation"):
        if case["vector"]:
            once = list(rotate.rotate_vector_data(
                before[0], before[1], total, tuple(start_dims), np))
            back = list(rotate.rotate_vector_data(
                once[0], once[1], -total, tuple(model_dims), np))
        else:
            once = [rotate.rotate_scalar_data(before[0], tuple(start_dims), np, total)]
            back = [rotate.rotate_scalar_data(once[0], tuple(model_dims), np, -total)]
    for c in range(len(arrays)):
        require(same(once[c], model[c]),
                f"turning by {total} at once differs from {case['turns']}")
        require(same(back[c], before[c]),
                f"turning by {total} and back does not restore the data")
        require(same(arrays[c], before[c]),
                "rotating changed its argument")
    if case["vector"]:
        # in-place rotation of the two components of a vector at a boundary
        turns = case["boundary_turns"]
        y_data, x_data = before[1].copy(), before[0].copy()
        want_x, want_y = before[0], before[1]
        for _ in range(turns % 4):
            want_x, want_y = want_y, -want_x
        boundary = SimpleBoundary(
            from_rank=0, to_rank=1, n_clockwise_rotations=turns, boundary_type=util.WEST)
        with ctx.sut("Boundary.rotate"):
            if x_data.ndim:
                boundary.rotate(y_data, x_data)
                require(same(x_data, want_x)
                        and same(y_data, want_y),
                        f"Boundary.rotate by {turns} gives x {x_data}, y {y_data}")
    ctx.nontrivial(n > 1 and total % 4 != 0 and len(model_dims) > 0
                   and any(d in X_DIMS + Y_DIMS for d in dims))
    ctx.label("horizontal dims", sum(d in X_DIMS + Y_DIMS for d in dims))
    ctx.label("vector" if case["vector"] else "scalar")
    ctx.label("turns", total % 4)
