"""C27: grid sizers and factories allocate consistent quantities."""
import copy

import numpy as np
from hypothesis import strategies as st

from ..arrays import X_DIMS, Y_DIMS
from ..core import require

N_HALO_DEFAULT = 3
HORIZONTAL = X_DIMS + Y_DIMS
KNOWN = {"x": "x", "x_interface": "x", "y": "y", "y_interface": "y", "z": "z",
         "z_interface": "z"}
DTYPES = ["float64", "float32", "int64", "int32", "bool", "complex128", "S3", "U2", ">f4", ">i8",
          "datetime64[s]", "timedelta64[h]", "record", "object"]
SPELLED = ["dtype", "type", "string"]


def as_dtype(name):
    if name == "record":
        return np.dtype([("a", "<i4"), ("b", "<f8")])
    return np.dtype(name)


def spelled(name, spelling):
    """A dtype the way the caller wrote it: as dtype, as scalar type, or by name."""
    dtype = as_dtype(name)
    if spelling == "type" and np.dtype(dtype.type) == dtype:
        return dtype.type
    return dtype if spelling == "dtype" or name == "record" else dtype.str


@st.composite
def cases(draw, tier):
    square = draw(st.booleans())
    ly = draw(st.integers(1, 4))
    lx = ly if square else draw(st.integers(1, 4))
    if draw(st.integers(0, 9)) == 0:
        ly = lx = draw(st.sampled_from([49, 98, 103, 107]))
    names = draw(st.permutations(["z_soil", "land", "tracer", "radiation", "years", "x_wind"]))
    extra = {n: draw(st.integers(1, 5)) for n in names[: draw(st.integers(0, 3))]}
    pool = list(KNOWN) + list(extra)
    request = st.fixed_dictionaries(
        {
            "dims": st.lists(st.sampled_from(pool), max_size=4, unique=True),
            "dtype": st.sampled_from(DTYPES),
            "spelling": st.sampled_from(SPELLED),
            "default_dtype": st.sampled_from([False, False, True]),
            "kind": st.sampled_from(["empty", "zeros", "ones"]),
            "as_list": st.booleans(),
        }
    )
    return {
        "layout": [ly, lx],
        "cells": [draw(st.integers(1, 5)), draw(st.integers(1, 5))],
        "nz": draw(st.integers(1, 6)),
        "n_halo": draw(st.integers(0, 4)),
        "extra": extra,
        "tile_rank": draw(st.integers(0, 10 ** 6)),
        "cuts": draw(st.lists(st.integers(0, 60), max_size=4)),
        "with_partitioner": draw(st.booleans()),
        "requests": draw(st.lists(request, min_size=1, max_size=4)),
    }


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    import fv3gfs.util as util

    ly, lx = case["layout"]
    ny, nx = case["cells"]
    nz, n_halo, extra = case["nz"], case["n_halo"], dict(case["extra"])
    given_extra = copy.deepcopy(extra)
    kwargs = {}
    if case["with_partitioner"]:
        kwargs["tile_partitioner"] = util.TilePartitioner((ly, lx))
        kwargs["tile_rank"] = case["tile_rank"] % (ly * lx)
    namelist = {"fv_core_nml": {"npx": nx * lx + 1, "npy": ny * ly + 1, "npz": nz,
                                "layout": [ly, lx]}}
    given_namelist = copy.deepcopy(namelist)
    with ctx.sut("sizer construction"):
        sizers = {
            "from_tile_params": util.SubtileGridSizer.from_tile_params(
                nx_tile=nx * lx, ny_tile=ny * ly, nz=nz, n_halo=n_halo,
                extra_dim_lengths=given_extra, layout=(ly, lx), **kwargs),
            "constructor": util.SubtileGridSizer(
                nx=nx, ny=ny, nz=nz, n_halo=n_halo, extra_dim_lengths=given_extra),
            "from_namelist": util.SubtileGridSizer.from_namelist(given_namelist, **kwargs),
        }
    size = {"x": nx, "y": ny, "z": nz}
    for name, sizer in sizers.items():
        halo = N_HALO_DEFAULT if name == "from_namelist" else n_halo
        lengths = {} if name == "from_namelist" else extra
        for dim, value in (("nx", nx), ("ny", ny), ("nz", nz), ("n_halo", halo)):
            require(int(getattr(sizer, dim)) == value,
                    f"{name}: {dim} is {getattr(sizer, dim)}, expected {value} "
                    f"(layout {(ly, lx)})")
        require(dict(sizer.extra_dim_lengths) == lengths, f"{name}: extra dims")
        factory = util.QuantityFactory(sizer, np)
        for req in case["requests"]:
            dims = req["dims"] if req["as_list"] else tuple(req["dims"])
            if any(d not in KNOWN and d not in lengths for d in dims):
                ctx.raises(KeyError, lambda: sizer.get_extent(dims), f"{name}: {dims}")
                continue
            make = getattr(factory, req["kind"])
            with ctx.sut(f"{name}: {req['kind']}({dims})"):
                if req["default_dtype"]:
                    q = make(dims, units="kg")
                else:
                    q = make(dims, units="kg",
                             dtype=spelled(req["dtype"], req["spelling"]))
                swapped = [SWAP.get(d, d) for d in dims]
                twin = factory.zeros(swapped, "m")
                shape, origin, extent = (
                    tuple(sizer.get_shape(dims)), tuple(sizer.get_origin(dims)),
                    tuple(sizer.get_extent(dims)))
            what = f"{name}: {req['kind']}({dims}), halo {halo}"
            want = tuple(
                size[KNOWN[d]] + (1 if d.endswith("interface") else 0)
                if d in KNOWN else lengths[d] for d in dims)
            require(q.extent == want == extent, f"{what}: extent {q.extent}, wanted {want}")
            want_origin = tuple(halo if d in HORIZONTAL else 0 for d in dims)
            require(q.origin == want_origin == origin, f"{what}: origin {q.origin}")
            require(q.data.shape == shape, f"{what}: shape {q.data.shape} is not {shape}")
            for k, d in enumerate(dims):
                after = q.data.shape[k] - q.origin[k] - q.extent[k]
                require(after >= (halo if d in HORIZONTAL else 0),
                        f"{what}: {after} points after the extent in {d}")
                if d not in KNOWN:
                    require(q.data.shape[k] == lengths[d], f"{what}: length of {d}")
                else:
                    require(q.data.shape[k] == size[KNOWN[d]] + 1
                            + (2 * halo if d in HORIZONTAL else 0),
                            f"{what}: {d} has {q.data.shape[k]} points")
            require(twin.data.shape == q.data.shape,
                    f"{what}: shape {q.data.shape}, staggered twin {twin.data.shape}")
            require(q.dims == tuple(dims) and q.units == "kg", f"{what}: {q.dims} {q.units}")
            dtype = np.dtype(float) if req["default_dtype"] else as_dtype(req["dtype"])
            require(q.data.dtype == dtype, f"{what}: dtype {q.data.dtype}, wanted {dtype}")
            if req["kind"] != "empty":
                fill = (np.zeros if req["kind"] == "zeros" else np.ones)((1,), dtype)
                require((q.data == fill[0]).all(), f"{what}: not filled with {fill[0]!r}")
            q.data[...] = np.ones((1,), dtype)[0]
            fresh = make(dims, units="kg")
            require(not np.shares_memory(fresh.data, q.data), f"{what}: shares memory")
            # a quantity made this way fits the tile: compare with the partitioner
            part = util.TilePartitioner((ly, lx))
            meta = util.QuantityMetadata(
                origin=q.origin, extent=q.extent, dims=q.dims, units="", data_type=np.ndarray,
                dtype=q.data.dtype)
            full = part.global_extent(meta)
            tile = tuple(
                (nx * lx if KNOWN[d] == "x" else ny * ly if KNOWN[d] == "y" else nz)
                + (1 if d.endswith("interface") else 0) if d in KNOWN else lengths[d]
                for d in dims)
            require(tuple(full) == tile, f"{what}: tile extent {full}, wanted {tile}")
            if any(d in HORIZONTAL for d in dims):
                ctx.nontrivial()
            ctx.label(req["kind"])
    # ranks whose subtiles differ in size, from a partitioner of the caller
    cuts = [sorted({0, total, *(c % (total + 1) for c in case["cuts"])})
            for total in (ny * ly, nx * lx)]
    subtiles = [(y, x) for y in zip(cuts[0], cuts[0][1:]) for x in zip(cuts[1], cuts[1][1:])]

    class Uneven(util.TilePartitioner):
        def subtile_slice(self, rank, global_dims, global_extent, overlap=False):
            extents = dict(zip(global_dims, global_extent))
            require({"x": extents.get("x"), "y": extents.get("y")}
                    == {"x": nx * lx, "y": ny * ly},
                    f"partitioner asked about {extents} of a tile of {ny * ly, nx * lx} cells")
            parts = dict(zip("yx", subtiles[rank]))
            return tuple(slice(*parts[dim]) for dim in global_dims)

    rank = case["tile_rank"] % len(subtiles)
    uneven = Uneven((len(cuts[0]) - 1, len(cuts[1]) - 1))
    (y0, y1), (x0, x1) = subtiles[rank]
    with ctx.sut(f"sizers for rank {rank} of subtiles {subtiles}"):
        custom = {
            "from_tile_params": util.SubtileGridSizer.from_tile_params(
                nx_tile=nx * lx, ny_tile=ny * ly, nz=nz, n_halo=n_halo,
                extra_dim_lengths=given_extra, layout=(ly, lx), tile_partitioner=uneven,
                tile_rank=rank),
            "from_namelist": util.SubtileGridSizer.from_namelist(
                given_namelist, tile_partitioner=uneven, tile_rank=rank),
        }
    for name, sizer in custom.items():
        require((int(sizer.ny), int(sizer.nx), int(sizer.nz)) == (y1 - y0, x1 - x0, nz),
                f"{name}: rank {rank} of a partitioner with subtiles {subtiles}: "
                f"{sizer.ny} by {sizer.nx} by {sizer.nz}")
    require(given_namelist == namelist, "the caller's namelist was changed")
    require(given_extra == extra, "the caller's dict of extra dims was changed")


SWAP = {"x": "x_interface", "x_interface": "x", "y": "y_interface", "y_interface": "y",
        "z": "z_interface", "z_interface": "z"}
