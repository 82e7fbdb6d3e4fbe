"""C32: quantities behave the same whatever array library or storage holds their data."""
import sys

import numpy as np
from hypothesis import strategies as st

from .. import devices
from ..arrays import MEMORY, X_DIMS, Y_DIMS, encode, filled, first_difference, same, schedules
from ..core import LCG, require
from ..sim import world_from
from . import c31_decomposition as c31

NEEDS_SCRATCH = True
BACKENDS = ["cupy", "gt:numpy", "gt:gtx86", "gt:gtmc", "gt:gtcuda"]
DIMS = ["x", "y_interface", "z", "years"]
DTYPES = ["float64", "float64", "float32", "int64", "int32", "bool"]


@st.composite
def histories(draw):
    """One quantity and a history of writes through all of its faces."""
    nd = draw(st.integers(1, 3))
    ops = st.fixed_dictionaries({
        "op": st.sampled_from(["data", "view", "storage", "storage", "transpose", "again",
                               "array"]),
        "at": st.integers(0, 2 ** 20), "value": st.integers(0, 60),
        "order": st.integers(0, 2 ** 20)})
    return {
        "kind": "history",
        "backend": draw(st.sampled_from(["numpy", *BACKENDS])),
        "how": draw(st.sampled_from(["native", "native", "backend", "host", "data array",
                                     "factory", "both"])),
        "dims": list(draw(st.permutations(DIMS)))[:nd],
        "extent": [draw(st.integers(1, 4)) for _ in range(nd)],
        "before": [draw(st.integers(0, 2)) for _ in range(nd)],
        "after": [draw(st.integers(0, 2)) for _ in range(nd)],
        "dtype": draw(st.sampled_from(DTYPES)),
        "memory": draw(st.sampled_from(MEMORY)),
        "creator": draw(st.sampled_from(["zeros", "ones", "empty"])),
        "ops": draw(st.lists(ops, max_size=6)),
    }


@st.composite
def programs(draw, tier):
    case = draw(c31.cases(tier))
    case["kind"] = "program"
    for k, segments in enumerate(case["runs"]):
        for segment in segments:
            segment["backend"] = "numpy" if k == 0 else draw(st.sampled_from(BACKENDS))
    return case


@st.composite
def tiles(draw):
    """Scatter from and gather to the root of a tile, without a place to receive into."""
    ly, lx = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    dims = [draw(st.sampled_from(["y", "y_interface"])),
            draw(st.sampled_from(["x", "x_interface"])), *draw(st.sampled_from(
                [[], ["z"], ["years"]]))]
    return {
        "kind": "tile", "layout": [ly, lx],
        "cells": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
        "dims": list(draw(st.permutations(dims))), "depth": draw(st.integers(1, 3)),
        "backend": draw(st.sampled_from(["numpy", *BACKENDS])),
        "dtype": draw(st.sampled_from(DTYPES)),
        "state": draw(st.booleans()), "into": draw(st.sampled_from([False, False, True])),
        "sched": draw(schedules(False)),
    }


def strategy(tier):
    return st.one_of(histories(), histories(), histories(), programs(tier), tiles())


def check(case, ctx):
    ctx.label("kind", case["kind"])
    if case["kind"] == "program":
        c31.check(case, ctx)
    elif case["kind"] == "tile":
        check_tile(case, ctx)
    else:
        check_history(case, ctx)


def check_tile(case, ctx):
    import fv3gfs.util as util

    backend, (ly, lx), (cy, cx) = case["backend"], case["layout"], case["cells"]
    axis = {d: d[0] for d in Y_DIMS + X_DIMS}
    lengths = {"y": (ly, cy), "x": (lx, cx)}
    parts = {d: lengths.get(axis.get(d), (1, case["depth"])) for d in case["dims"]}
    shape = tuple(n * c + d.endswith("_interface") for d, (n, c) in parts.items())
    values = encode(np.arange(int(np.prod(shape))).reshape(shape), case["dtype"])
    with ctx.sut("partitioner"):
        part = util.TilePartitioner((ly, lx))
    what = f"tile of {backend} quantities, dims {case['dims']}, layout {(ly, lx)}"

    def whole(content):
        plain = util.Quantity(content.copy(), dims=case["dims"], units="m")
        return c31.global_state(util, {"q": plain}, backend)["q"]

    def program(comm):
        tile = util.TileCommunicator(comm, part)
        rank = comm.Get_rank()
        sent = whole(values) if rank == 0 else None
        if case["state"]:
            got = tile.scatter_state({"q": sent} if rank == 0 else None)["q"]
        else:
            got = tile.scatter(sent)
        c31.check_kind(got, backend, f"{what}: scattered")
        where = {"y": rank // lx, "x": rank % lx}
        mine = tuple(
            slice(where[axis[d]] * c, (where[axis[d]] + 1) * c + d.endswith("_interface"))
            if d in axis else slice(None) for d, (n, c) in parts.items())
        seen = np.ascontiguousarray(devices.host(got.view[:]))
        want = np.ascontiguousarray(values[mine])
        require(same(seen, want), lambda: f"{what}: rank {rank}: {first_difference(seen, want)}")
        place = whole(np.zeros_like(values)) if case["into"] and rank == 0 else None
        if case["state"]:
            back = tile.gather_state({"q": got}, {"q": place} if place else None)
            back = back["q"] if back else None
        else:
            back = tile.gather(got, place)
        if rank:
            require(back is None, f"{what}: rank {rank} gathered {back}")
            return
        require(place is None or back is place, f"{what}: gathered into another quantity")
        c31.check_kind(back, backend, f"{what}: gathered")
        seen = np.ascontiguousarray(devices.host(back.view[:]))
        require(same(seen, values), lambda: f"{what}: gathered {first_difference(seen, values)}")
        require(back.dims == tuple(case["dims"]) and back.units == "m",
                f"{what}: gathered {back.dims} in {back.units}")

    world = world_from(ly * lx, case["sched"])
    with ctx.sut(what):
        world.run(program)
    require(world.leftovers() == 0, f"{what}: messages were never received")
    ctx.nontrivial(backend != "numpy")
    ctx.label("backend", backend)


def make(util, case, values, ctx):
    """(quantity, backend it must have, its initial content) or None after a rejection."""
    import gt4py

    backend, how = case["backend"], case["how"]
    shape, origin, extent = values.shape, tuple(case["before"]), tuple(case["extent"])
    gt = backend[3:] if backend.startswith("gt:") else None
    device = devices.array_type(backend) is devices.ndarray
    keywords = dict(dims=case["dims"], units="m", origin=origin, extent=extent)
    array = filled(values, case["dtype"], case["memory"])
    if how == "factory" and gt:
        sizer = util.SubtileGridSizer(4, 3, 2, n_halo=2, extra_dim_lengths={"years": 3})
        factory = util.QuantityFactory.from_backend(sizer, gt)
        make_one = getattr(factory, case["creator"])
        quantity = make_one(case["dims"], "m", dtype=np.dtype(case["dtype"]).type)
        content = devices.host(quantity.data).copy()
        if case["creator"] != "empty":
            require(bool((content == (case["creator"] == "ones")).all()),
                    f"factory for {backend}: {case['creator']} are {content}")
        plain = util.QuantityFactory(sizer, np).zeros(case["dims"], "m")
        for name in ("origin", "extent", "dims", "units"):
            require(getattr(plain, name) == getattr(quantity, name),
                    f"factory for {backend}: {name} {getattr(quantity, name)}")
        require(content.shape == plain.data.shape and content.dtype == case["dtype"],
                f"factory for {backend}: {content.dtype} {content.shape}")
        return quantity, backend, content
    if how == "both" and gt:
        storage = gt4py.storage.empty(gt, origin, shape, case["dtype"], managed_memory=True)
        for other in (gt, "numpy", "gtcuda"):
            ctx.raises(TypeError, lambda: util.Quantity(
                storage, gt4py_backend=other, **keywords), "storage and backend given")
        ctx.label("rejected")
        return None
    if gt is None:
        data = devices.wrap(array) if device else array
        quantity = util.Quantity(data, **keywords)
        require(quantity.data is data, f"{backend}: data is another array")
        return quantity, backend, values
    if how in ("native", "both", "factory"):
        data = gt4py.storage.empty(gt, origin, shape, case["dtype"], managed_memory=True)
        data[...] = array
        quantity = util.Quantity(data, **keywords)
        require(np.shares_memory(devices.host(quantity.data), data),
                f"{backend}: data of a storage are a copy")
    elif how == "data array":
        import xarray

        labelled = xarray.DataArray(array, dims=case["dims"], attrs={"units": "m"})
        quantity = util.Quantity.from_data_array(
            labelled, origin=origin, extent=extent, gt4py_backend=gt)
    else:
        # arrays of the host may be moved to the device
        data = devices.wrap(array) if device and how == "backend" else array
        quantity = util.Quantity(data, gt4py_backend=gt, **keywords)
    return quantity, backend, values


def check_history(case, ctx):
    import fv3gfs.util as util

    shape = [b + e + a for b, e, a in zip(case["before"], case["extent"], case["after"])]
    values = encode(np.arange(int(np.prod(shape))).reshape(shape), case["dtype"])
    with ctx.sut(f"{case['backend']} quantity from {case['how']}"):
        made = make(util, case, values, ctx)
    if made is None:
        return
    quantity, backend, content = made
    storages, stored = [], backend.startswith("gt:")
    content = content.copy()

    def compare(what):
        c31.check_kind(quantity, backend, what)
        faces = [("data", devices.host(quantity.data))]
        if stored:
            faces += [("storage", devices.host(quantity.storage))]
            faces += [("storage taken earlier", devices.host(s)) for s in storages]
        for name, face in faces:
            require(same(np.ascontiguousarray(face), np.ascontiguousarray(content)),
                    lambda: f"{what}: {name}: {first_difference(face, content)}")
        compute = tuple(slice(o, o + e) for o, e in zip(quantity.origin, quantity.extent))
        with ctx.sut(f"{what}: reading the view"):
            seen = quantity.view[:]
        require(type(seen) is devices.array_type(backend), f"{what}: view is {type(seen)}")
        require(same(np.ascontiguousarray(devices.host(seen)),
                     np.ascontiguousarray(content[compute])),
                lambda: f"{what}: view: "
                f"{first_difference(devices.host(seen), content[compute])}")
        require(quantity.data.dtype == content.dtype and quantity.metadata.dtype
                == content.dtype, f"{what}: dtype {quantity.metadata.dtype}")
        if not stored:
            ctx.raises(TypeError, lambda: quantity.storage, f"{what}: storage")

    compare("after construction")
    for k, op in enumerate(case["ops"]):
        what = f"after operation {k} ({op['op']}) on {backend}"
        rng = LCG(op["at"])
        value = np.array(op["value"]).astype(content.dtype)[()]
        index = tuple(rng.next(n) for n in content.shape)
        inner = tuple(rng.next(n) for n in quantity.extent)
        at = tuple(o + i for o, i in zip(quantity.origin, inner))
        with ctx.sut(what):
            if op["op"] == "data":
                quantity.data[index] = value
                content[index] = value
            elif op["op"] == "view":
                quantity.view[inner] = value
                content[at] = value
            elif op["op"] == "array":
                first = quantity.view[inner[0]:inner[0] + 1]
                quantity.view[inner[0]:inner[0] + 1] = first
            elif op["op"] == "storage" and stored:
                storage = quantity.storage
                storages.append(storage)
                storage[index] = value
                content[index] = value
            elif op["op"] == "again" and stored:
                # a quantity made of the storage is the same data
                quantity = util.Quantity(
                    quantity.storage, dims=quantity.dims, units=quantity.units,
                    origin=quantity.origin, extent=quantity.extent)
            elif op["op"] == "transpose":
                old, before = quantity, content.copy()
                order = LCG(op["order"]).shuffled(range(content.ndim))
                quantity = old.transpose([old.dims[i] for i in order])
                for name in ("dims", "origin", "extent"):
                    require(getattr(quantity, name) == tuple(
                        getattr(old, name)[i] for i in order),
                        f"{what}: {name} {getattr(quantity, name)}")
                require(quantity.units == old.units, f"{what}: units {quantity.units}")
                content, storages = before.transpose(order).copy(), []
                require(same(np.ascontiguousarray(devices.host(old.data)),
                             np.ascontiguousarray(before)), f"{what}: original changed")
        compare(what)
    ctx.nontrivial(bool(case["ops"]) and backend != "numpy")
    ctx.label("backend", backend)
    ctx.label("how", case["how"])
    assert sys
