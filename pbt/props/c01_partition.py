"""C01: domain decomposition is an exact partition."""
import numpy as np
from hypothesis import strategies as st

from ..arrays import INTERFACE, TILE, X_DIMS, Y_DIMS
from ..core import require

OTHER = ["z", "z_interface", "z_soil", "tracer", "land", "years", "x_wind", "my", "tiles"]


@st.composite
def layouts(draw):
    kind = draw(st.sampled_from(["small", "small", "long", "square"]))
    if kind == "small":
        return [draw(st.integers(1, 5)), draw(st.integers(1, 5))]
    if kind == "square":
        n = draw(st.integers(1, 8))
        return [n, n]
    pair = [draw(st.integers(1, 200)), draw(st.integers(1, 2))]
    return pair if draw(st.booleans()) else pair[::-1]


@st.composite
def cases(draw, tier):
    layout = draw(layouts())
    horizontal = draw(st.sampled_from(["yx", "yx", "yx", "xy", "y", "x", ""]))
    dims = []
    for h in horizontal:
        dims.append(draw(st.sampled_from(X_DIMS if h == "x" else Y_DIMS)))
    others = draw(st.permutations(OTHER))[: draw(st.integers(0, 2))]
    for o in others:
        dims.insert(draw(st.integers(0, len(dims))), o)
    big = max(layout) > 8
    cells = {
        "y": draw(st.integers(1, 3 if big else 6)),
        "x": draw(st.integers(1, 3 if big else 6)),
    }
    if draw(st.sampled_from([0, 0, 1])):
        cells = {"y": draw(st.integers(1, 400)), "x": draw(st.integers(1, 400))}
    return {
        "layout": layout,
        "dims": dims,
        "cells": cells,
        "others": [draw(st.integers(1, 5)) for _ in others],
        "cube": draw(st.booleans()),
        "namelist": draw(st.booleans()),
        "np_ints": draw(st.booleans()),
        "bad_total": draw(st.integers(1, 1000)),
        "rank_seed": draw(st.integers(0, 10 ** 6)),
    }


def strategy(tier):
    return cases(tier)


def case_of(layout, cells, dims=("y", "x"), cube=False):
    return {"layout": layout, "dims": list(dims), "cells": {"y": cells, "x": cells},
            "others": [], "cube": cube, "namelist": False, "np_ints": False,
            "bad_total": 7, "rank_seed": 1}


PINNED = [case_of([49, 1], 1), case_of([1, 98], 1, ("y", "x_interface")),
          case_of([103, 1], 1, ("y_interface",), True), case_of([3, 3], 16, cube=True)]


def check(case, ctx):
    import fv3gfs.util as util

    layout, dims = tuple(case["layout"]), list(case["dims"])
    per_tile = layout[0] * layout[1]
    is_cube = case["cube"]
    with ctx.sut("partitioner construction"):
        if case["namelist"]:
            namelist = {"fv_core_nml": {"layout": list(layout), "npx": 13}}
            tile_part = util.TilePartitioner.from_namelist(namelist)
            cube_part = util.CubedSpherePartitioner.from_namelist(namelist)
        else:
            tile_part = util.TilePartitioner(layout)
            cube_part = util.CubedSpherePartitioner(tile_part)
    require(tile_part.total_ranks == per_tile, "tile total_ranks")
    require(cube_part.total_ranks == 6 * per_tile, "cube total_ranks")

    # per-axis facts
    others = iter(case["others"])
    n_of, c_of, full, own = [], [], [], []
    for dim in dims:
        if dim in Y_DIMS:
            n, c = layout[0], case["cells"]["y"]
        elif dim in X_DIMS:
            n, c = layout[1], case["cells"]["x"]
        else:
            n, c = 1, next(others)
        extra = 1 if dim in INTERFACE else 0
        n_of.append(n)
        c_of.append(c)
        full.append(n * c + extra)
        own.append(c + extra)
    part = cube_part if is_cube else tile_part
    wrap = np.int64 if case["np_ints"] else int
    global_dims = ([TILE] if is_cube else []) + dims
    global_extent = ([6] if is_cube else []) + [wrap(k) for k in full]

    def metadata(names, extent):
        return util.QuantityMetadata(
            origin=(0,) * len(names), extent=tuple(extent), dims=tuple(names), units="m",
            data_type=np.ndarray, dtype=np.float64)

    with ctx.sut("subtile_extent"):
        rank_extent = part.subtile_extent(metadata(global_dims, global_extent))
    require(tuple(rank_extent) == tuple(own),
            f"subtile_extent {rank_extent} of {global_dims} {global_extent} with layout "
            f"{layout}, expected {tuple(own)}")
    with ctx.sut("global_extent"):
        tile_extent = part.global_extent(metadata(dims, [wrap(k) for k in own]))
    require(tuple(tile_extent) == tuple(([6] if is_cube else []) + full),
            f"global_extent {tile_extent} of {dims} {own} with layout {layout}")
    require(all(isinstance(int(k), int) for k in rank_extent), "extent types")

    n_ranks = per_tile * (6 if is_cube else 1)
    size = int(np.prod(full, dtype=np.int64))
    exhaustive = size * (6 if is_cube else 1) <= 40000 and n_ranks <= 1300
    counts = np.zeros(([6] if is_cube else []) + full, dtype=np.int16) if exhaustive else None
    shared = np.zeros_like(counts) if exhaustive else None
    ranks = list(range(n_ranks))
    if n_ranks > 300:
        start = case["rank_seed"] % n_ranks
        ranks = sorted({0, n_ranks - 1, start, per_tile - 1, (start * 7) % n_ranks})
        exhaustive = False
    for rank in ranks:
        tile, within = divmod(rank, per_tile)
        j, i = divmod(within, layout[1])
        index = tile_part.subtile_index(wrap(rank))
        require(tuple(int(k) for k in index) == (j, i),
                f"subtile_index({rank}) is {index}, layout {layout}")
        require(cube_part.tile_index(rank) == tile, f"tile_index({rank}), layout {layout}")
        require(util.get_tile_index(rank, 6 * per_tile) == tile, f"get_tile_index({rank})")
        require(util.get_tile_number(rank, 6 * per_tile) == tile + 1,
                f"get_tile_number({rank})")
        require(cube_part.tile_root_rank(rank) == tile * per_tile,
                f"tile_root_rank({rank}), layout {layout}")
        for overlap in (False, True):
            with ctx.sut(f"subtile_slice({rank}, overlap={overlap})"):
                if overlap:
                    got = part.subtile_slice(rank, global_dims, global_extent, overlap=True)
                else:
                    got = part.subtile_slice(rank, global_dims, global_extent)
            what = (f"subtile_slice of rank {rank}, layout {layout}, dims {global_dims}, "
                    f"extent {global_extent}, overlap {overlap}: {got}")
            require(len(got) == len(global_dims), what)
            local = got[1:] if is_cube else got
            if is_cube:
                require(got[0] == tile, what)
            for axis, sl in enumerate(local):
                pos = {True: j, False: i}[dims[axis] in Y_DIMS] if n_of[axis] > 1 else 0
                lo = pos * c_of[axis]
                hi = lo + c_of[axis]
                if dims[axis] in INTERFACE and (overlap or pos == n_of[axis] - 1):
                    hi += 1
                points = range(full[axis])[sl]
                require((points.start, points.stop, points.step) == (lo, hi, 1),
                        f"{what}: axis {axis} should be {lo}..{hi}")
            if overlap:
                # a rank's share has exactly the rank's extent
                require(
                    tuple(len(range(e)[s]) for e, s in zip(full, local)) == tuple(own), what)
            if exhaustive:
                (shared if overlap else counts)[tuple(got)] += 1
    if exhaustive:
        ctx.label("exhaustive")
        # a field without a horizontal direction is held by all ranks along it
        missing = [n for n, h in ((layout[0], Y_DIMS), (layout[1], X_DIMS))
                   if not any(d in h for d in dims)]
        factor = int(np.prod(missing)) if missing else 1
        require((counts == factor).all(),
                f"layout {layout}, dims {global_dims}, extent {global_extent}: some points "
                f"are covered {counts.min()}..{counts.max()} times instead of {factor}")
        expected = np.full(full, factor, dtype=int)
        for axis, dim in enumerate(dims):
            if dim in INTERFACE:
                inner = [slice(None)] * len(dims)
                inner[axis] = slice(c_of[axis], full[axis] - 1, c_of[axis])
                expected[tuple(inner)] *= 2
        require((shared == expected).all(),
                f"layout {layout}, dims {global_dims}: overlapping slices share other "
                f"points than the interfaces between ranks")

    if case["bad_total"] % 6:
        ctx.raises(ValueError, lambda: util.get_tile_index(0, case["bad_total"]),
                   f"get_tile_index with {case['bad_total']} ranks")
        ctx.raises(ValueError, lambda: util.get_tile_number(0, case["bad_total"]),
                   f"get_tile_number with {case['bad_total']} ranks")
    if is_cube and len(dims) > 0:
        ctx.raises(NotImplementedError,
                   lambda: cube_part.subtile_slice(0, dims + [TILE], full + [6]),
                   "subtile_slice with the tile dimension not first")
        ctx.raises(NotImplementedError,
                   lambda: cube_part.subtile_extent(metadata(dims + [TILE], full + [6])),
                   "subtile_extent with the tile dimension not first")
    if layout[0] != layout[1]:
        for edge in util.EDGE_BOUNDARY_TYPES:
            ctx.raises(NotImplementedError,
                       lambda: cube_part.boundary(edge, case["bad_total"] % (6 * per_tile)),
                       f"boundary {edge} on a cube with layout {layout}")
    ctx.raises(TypeError, lambda: util.CubedSpherePartitioner(layout),
               "CubedSpherePartitioner of a layout")
    ctx.label("layout", "square" if layout[0] == layout[1] else "rectangular")
    ctx.label("horizontal dims", sum(d in X_DIMS + Y_DIMS for d in dims))
    ctx.label("cube" if is_cube else "tile")
    ctx.nontrivial(per_tile > 1 and any(n > 1 for n in n_of))
