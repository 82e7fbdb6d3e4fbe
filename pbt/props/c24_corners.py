"""C24: filling corners continues the data around the corners of a tile."""
import numpy as np
from hypothesis import strategies as st

from ..arrays import MEMORY, encode, filled, first_difference, same
from ..core import require
from ..fields import SCALAR_DTYPES

OTHER = ["z", "z_interface", "years"]


@st.composite
def strategies(draw, tier):
    layout = [draw(st.sampled_from([1, 1, 2, 2, 3, 4])), draw(st.sampled_from([1, 1, 2, 2, 3, 4]))]
    axes = []
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    for name in ("x", "y"):
        interface = draw(st.booleans())
        axes.append({
            "dim": name + ("_interface" if interface else ""),
            "cells": n + draw(st.integers(0, 3)),
            "before": n + draw(st.sampled_from([0, 0, 1, 2])),
            "after": n + draw(st.sampled_from([0, 0, 1, 2]))})
    others = [
        {"dim": d, "cells": draw(st.integers(1, 3)), "before": draw(st.integers(0, 2)),
         "after": draw(st.integers(0, 2))}
        for d in draw(st.permutations(OTHER))[:draw(st.sampled_from([0, 0, 1, 1, 2]))]]
    order = draw(st.sampled_from(["xy"] * 24 + ["yx", "xzy", "zxy", "zyx", "yzx"]))
    return {
        "layout": layout,
        "rank": draw(st.integers(0, 15)),
        "tile": draw(st.sampled_from([0, 0, 1, 3, 5])),
        "axes": axes, "others": others, "order": order,
        "n_halo": n,
        "direction": draw(st.sampled_from(["x", "y"] * 16 + ["z", "", "X", "xy"])),
        "memory": draw(st.sampled_from(MEMORY)),
        "dtype": draw(st.sampled_from(SCALAR_DTYPES)),
        "repeat": draw(st.integers(1, 2)),
    }


def strategy(tier):
    return strategies(tier)


def expected_fill(before, case, ny_row, nx_col, axes):
    """The documented figure, point by point.

    Around a corner, let a be how far a point is outside the tile along x and b how far
    along y (1 is adjacent to the edge).  Stencils along x in the halo beyond the y edge
    continue onto the tile across the x edge: the point at (a, b) takes the value of that
    tile's point b away from the x edge and a inside the tile along y.  Stencils along y do
    the same with x and y exchanged.  Points on a shared edge are skipped.
    """
    out = before.copy()
    rows, cols = case["layout"]
    (x, y) = axes
    n = case["n_halo"]
    # along other dimensions only the compute domain is filled
    others = tuple(
        slice(o["before"], o["before"] + o["cells"] + o["dim"].endswith("_interface"))
        for o in case["others"])
    x_shared = int(x["dim"] == "x_interface")
    y_shared = int(y["dim"] == "y_interface")

    def position(axis, shared, high, inside):
        """Array position; inside > 0 counts compute points from that edge, <= 0 outside."""
        first = axis["before"]
        last = axis["before"] + axis["cells"] + shared - 1
        return last - (inside - 1) if high else first + (inside - 1)

    corners = 0
    for high_y in (False, True):
        if ny_row != (rows - 1 if high_y else 0):
            continue
        for high_x in (False, True):
            if nx_col != (cols - 1 if high_x else 0):
                continue
            corners += 1
            for a in range(1, n + 1):
                for b in range(1, n + 1):
                    to = (position(x, x_shared, high_x, 1 - a),
                          position(y, y_shared, high_y, 1 - b))
                    if case["direction"] == "x":
                        source = (position(x, x_shared, high_x, 1 - b),
                                  position(y, y_shared, high_y, a + y_shared))
                    else:
                        source = (position(x, x_shared, high_x, b + x_shared),
                                  position(y, y_shared, high_y, 1 - a))
                    out[to + others] = before[source + others]
    return out, corners


def check(case, ctx):
    import fv3gfs.util as util

    rows, cols = case["layout"]
    per_tile = rows * cols
    tile_rank = case["rank"] % per_tile
    rank = tile_rank + case["tile"] * per_tile
    axes = list(case["axes"])
    others = list(case["others"])
    all_axes = axes + others
    if case["order"] == "yx":
        all_axes = [axes[1], axes[0]] + others
    elif case["order"] != "xy":
        if not others:
            others = [{"dim": "z", "cells": 2, "before": 0, "after": 0}]
        first = others[0]
        named = {"x": axes[0], "y": axes[1], "z": first}
        all_axes = [named[letter] for letter in case["order"]] + others[1:]
    dims = [a["dim"] for a in all_axes]
    extent = [a["cells"] + int(a["dim"].endswith("_interface")) for a in all_axes]
    origin = [a["before"] for a in all_axes]
    shape = [a["before"] + e + a["after"] for a, e in zip(all_axes, extent)]
    ids = np.arange(int(np.prod(shape))).reshape(shape)
    before = encode(ids, case["dtype"])
    data = filled(before, case["dtype"], case["memory"])
    quantity = util.Quantity(data, dims=dims, units="m", origin=origin, extent=extent)
    partitioner = util.TilePartitioner(tuple(case["layout"]))
    n, direction = case["n_halo"], case["direction"]
    what = (f"fill_scalar_corners of dims {dims} origin {origin} extent {extent} on rank "
            f"{rank} of layout {case['layout']}, direction {direction!r}, n_halo {n}")

    def fill():
        util.fill_scalar_corners(quantity, direction, partitioner, rank, n)

    if case["order"] != "xy" or direction not in ("x", "y"):
        wanted = []
        if case["order"] != "xy":
            wanted.append(ValueError)
        if direction not in ("x", "y"):
            wanted.append(TypeError)
        ctx.raises(tuple(wanted), fill, what)
        require(same(data, before), f"{what}: rejected but the data changed")
        ctx.label("rejected")
        return
    expected = before
    for _ in range(case["repeat"]):
        with ctx.sut(what):
            result = fill()
        require(result is None or result is quantity, f"{what}: returned {result!r}")
        expected, corners = expected_fill(
            expected, case, tile_rank // cols, tile_rank % cols, axes)
        require(same(data, expected),
                lambda: f"{what}: {first_difference(data, expected)}")
    require(tuple(quantity.dims) == tuple(dims) and tuple(quantity.origin) == tuple(origin)
            and tuple(quantity.extent) == tuple(extent), f"{what}: metadata changed")
    ctx.label("corners", corners)
    ctx.label("direction", direction)
    ctx.label("staggering", "".join("i" if d.endswith("_interface") else "c" for d in dims[:2]))
    ctx.nontrivial(corners > 0)
