"""C16: constructing quantities keeps data and validates metadata; labelled arrays."""
import datetime

import cftime
import numpy as np
from hypothesis import strategies as st

from .. import quantities as Q
from ..arrays import first_difference, same
from ..core import require

VARIABLES = ["a", "time_step", "times", "downtime", "Time", "air_temperature", "A b", "", "_w",
             "units", "u-1", "\u03b8"]


@st.composite
def cases(draw, tier):
    lengths = {n: draw(st.integers(1, 4)) for n in Q.NAMES}
    specs = []
    for _ in range(draw(st.integers(1, 3))):
        spec = draw(Q.quantities())
        for name, axis in zip(spec["dims"], spec["axes"]):
            axis["extent"] = lengths[name]  # as data sets require
        specs.append(spec)
    return {
        "specs": specs,
        "names": draw(st.permutations(VARIABLES))[:len(specs)],
        "defaults": draw(st.sampled_from(["none", "extent", "both"])),
        "container": draw(st.sampled_from(["tuple", "list", "array"])),
        "bad": draw(st.sampled_from(
            ["dims_short", "dims_long", "origin_short", "origin_long", "extent_short",
             "extent_long", "origin_text", "extent_text"])),
        "where": draw(st.integers(0, 3)),
        "time": draw(st.sampled_from(["none", "cftime", "datetime"])),
        "plain": draw(st.one_of(
            st.integers(-9, 9), st.sampled_from([0.5, -2.25]),
            st.lists(st.integers(0, 9), max_size=4),
            st.lists(st.lists(st.sampled_from([0.5, 1.5, 2.5]), min_size=2, max_size=2),
                     min_size=1, max_size=3))),
    }


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    import fv3gfs.util as util

    def container(items):
        if case["container"] == "list":
            return list(items)
        if case["container"] == "array" and items and not isinstance(items[0], str):
            return np.array(items)
        return tuple(items)

    state, mades = {}, []
    for number, spec in enumerate(case["specs"]):
        made = Q.Made(util, spec, number)
        mades.append(made)
        state[case["names"][number]] = made.quantity
        kwargs = {"origin": container(made.origin), "extent": container(made.extent)}
        origin, extent = made.origin, made.extent
        if case["defaults"] in ("extent", "both"):
            del kwargs["extent"]
            extent = tuple(s - o for s, o in zip(made.shape, origin))
        if case["defaults"] == "both":
            del kwargs["origin"]
            origin, extent = (0,) * len(made.dims), made.shape
        units = spec["units"]
        what = f"Quantity of shape {made.shape}, {made.dims}, {kwargs}"
        names = container(made.dims)
        with ctx.sut(what):
            q = util.Quantity(made.data, names, units, **kwargs)
        for given in [names, *kwargs.values()]:  # the caller's lists are the caller's
            if isinstance(given, list):
                given[:] = given[::-1]
            elif isinstance(given, np.ndarray):
                given[...] = 0
        require(q.origin == origin and q.extent == extent,
                f"{what}: origin {q.origin} extent {q.extent}, not {origin} {extent}")
        require(all(type(k) is int for k in q.origin + q.extent), f"{what}: not integers")
        require(q.dims == made.dims and isinstance(q.dims, tuple), f"{what}: dims {q.dims}")
        require(q.units == units, f"{what}: units {q.units!r}")
        require(q.attrs == {"units": units}, f"{what}: attrs {q.attrs}")
        with ctx.sut(f"{what}: changing attrs that were returned"):
            for attrs in (q.attrs, q.data_array.attrs):
                attrs.update({"units": "changed", "more": 1})
        require(q.units == units and q.attrs.get("units") == units,
                f"{what}: units {q.units!r} and attrs {q.attrs} after changing the "
                "attributes that had been returned")
        require(q.data.shape == made.shape and q.data.dtype == made.data.dtype and (
            q.data is made.data or np.shares_memory(q.data, made.data)),
            f"{what}: data is not the given array")
        meta = q.metadata
        require((meta.origin, meta.extent, meta.dims, meta.units) == (
            origin, extent, made.dims, units) and np.dtype(meta.dtype) == made.data.dtype
            and meta.data_type is np.ndarray, f"{what}: metadata {meta}")
        require(meta.dim_lengths == dict(zip(made.dims, extent)), f"{what}: dim_lengths")
        require(q.np is np, f"{what}: numpy module")
        ctx.raises(TypeError, lambda: q.storage, f"{what}: storage")
        repr(q)
        inner = tuple(slice(o, o + e) for o, e in zip(origin, extent))
        compute = made.data[inner] if inner else made.data
        # labelled array
        with ctx.sut(f"{what}: data_array"):
            array = q.data_array
        require(tuple(array.dims) == made.dims, f"{what}: data array dims {array.dims}")
        require(array.attrs == {"units": units}, f"{what}: data array attrs {array.attrs}")
        require(same(array.values, compute),
                lambda: f"{what}: data array {first_difference(array.values, compute)}")
        with ctx.sut(f"{what}: from_data_array"):
            back = util.Quantity.from_data_array(array)
        require(back.dims == made.dims and back.units == units and back.extent == extent
                and back.origin == (0,) * len(origin) and same(back.view[:], compute),
                f"{what}: from_data_array(data_array) is {back!r}")
        shift = tuple(min(1, e - 1) for e in extent)
        rest = tuple(e - s for e, s in zip(extent, shift))
        with ctx.sut(f"{what}: from_data_array with origin"):
            part = util.Quantity.from_data_array(array, origin=shift, extent=rest)
        cut = tuple(slice(s, None) for s in shift)
        require(part.origin == shift and part.extent == rest and same(
            part.view[:], compute[cut] if cut else compute),
            f"{what}: from_data_array with origin {shift}")
        less = tuple(max(1, r - 1) if r else 0 for r in rest)
        for start in (shift, None):
            keywords = {} if start is None else {"origin": container(start)}
            with ctx.sut(f"{what}: from_data_array with extent"):
                part = util.Quantity.from_data_array(array, extent=container(less), **keywords)
            start = start or (0,) * len(less)
            inside = tuple(slice(s, s + n) for s, n in zip(start, less))
            require(part.origin == start and part.extent == less and same(
                part.view[:], compute[inside] if inside else compute),
                f"{what}: from_data_array with {keywords} and extent {less} is {part!r}")
        stripped = array.copy()
        stripped.attrs = {"long_name": "no units"}
        ctx.raises(ValueError, lambda: util.Quantity.from_data_array(stripped),
                   f"{what}: from_data_array without units")
        # read-only values
        with ctx.sut(f"{what}: values"):
            values = q.values
        require(same(values, compute), f"{what}: values")
        require(not values.flags.writeable, f"{what}: values can be written")

        def write():
            values[...] = 0

        ctx.raises(ValueError, write, f"{what}: writing to values")
        require(q.data.flags.writeable and made.data.flags.writeable,
                f"{what}: accessing values made the quantity read-only")
        with ctx.sut(f"{what}: writing after values"):
            q.view[:] = compute.copy()
        made.require_data(made.saved, f"{what}: accessors changed the data")
        ctx.nontrivial(any(origin) or case["defaults"] != "none")
        # inconsistent metadata
        names, o, e = list(made.dims), list(made.origin), list(made.extent)
        bad, k = case["bad"], case["where"] % max(1, len(names))
        if bad.endswith(("short", "text")) and not names:
            continue
        exc = ValueError
        target = {"d": names, "o": o, "e": e}[bad[0]]
        if bad.endswith("short"):
            del target[k]
        elif bad.endswith("long"):
            target.append("more" if bad == "dims_long" else 1)
        else:
            target[k] = "one"
            exc = (TypeError, ValueError)
        ctx.raises(
            exc, lambda: util.Quantity(made.data, names, units, origin=o, extent=e),
            f"Quantity of shape {made.shape} with dims {names} origin {o} extent {e}")
        ctx.label("rejected", bad)
    # lists and scalars as data
    plain = case["plain"]
    with ctx.sut(f"Quantity({plain!r})"):
        want = np.asarray(plain)
        dims = ["x", "y"][: want.ndim]
        q = util.Quantity(plain, dims, "m")
    require(q.extent == want.shape and same(q.view[:], want), f"Quantity({plain!r}): {q!r}")
    # data sets
    times = {"none": None, "cftime": cftime.DatetimeJulian(2016, 8, 1, 3, 15),
             "datetime": datetime.datetime(2016, 8, 1, 3, 15, 2)}
    moment = times[case["time"]]
    if moment is not None:
        state["time"] = moment
    keys = list(state)
    with ctx.sut("to_dataset"):
        ds = util.to_dataset(state)
    require(list(state) == keys, "to_dataset changed the state")
    require(set(ds.variables) == set(state), f"data set with {list(ds.variables)}")
    for number, made in enumerate(mades):
        var = ds[case["names"][number]]
        compute = made.data[made.compute] if made.compute else made.data
        require(tuple(var.dims) == made.dims and same(var.values, compute)
                and var.attrs.get("units") == made.spec["units"],
                lambda: f"to_dataset: variable {number}: {var}")
        made.require_data(made.saved, "to_dataset changed the data")
    if moment is not None:
        got = ds["time"].values
        require(got.shape == (), f"to_dataset: time {got}")
        if isinstance(moment, datetime.datetime):
            require(got == np.datetime64(moment), f"to_dataset: time {got}")
        else:
            require(got.item() == moment and type(got.item()) is type(moment),
                    f"to_dataset: time {got}")
    ctx.label("time", case["time"])
    ctx.label("defaults", case["defaults"])
