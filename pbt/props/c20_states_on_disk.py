"""C20: writing and reading a state is a round trip."""
import datetime
import os

import cftime
import numpy as np
from hypothesis import strategies as st

from ..arrays import MEMORY, encode, filled, first_difference, rarely_large, same, seeds
from ..core import LCG, require

NEEDS_SCRATCH = True

NAMES = ["a", "air_temperature", "x_wind", "Z", "time_step", "times", "A b", "u-1", "_w",
         "x", "z", "latent_heat_flux"]
DIMS = ["x", "x_interface", "y", "y_interface", "z", "z_interface", "z_soil", "tile", "n", "years"]
UNITS = ["m", "m/s", "", "K", "kg kg**-1", "\u00b5m", "dimensionless", "degrees_north", "1",
         "s", "seconds", "hours", "days", "minutes", "days since 2000-01-01",
         "seconds since 1970-01-01 00:00:00", "s**-1"]
# what a NetCDF 3 file stores as it is
DTYPES = ["float64", "float64", "float32", "int32", "int16", "int8", "bool"]
CALENDARS = {
    "julian": cftime.DatetimeJulian, "360_day": cftime.Datetime360Day,
    "noleap": cftime.DatetimeNoLeap, "all_leap": cftime.DatetimeAllLeap,
    "gregorian": cftime.DatetimeGregorian,
    "proleptic": cftime.DatetimeProlepticGregorian, "datetime": datetime.datetime,
}
BAD_TIMES = ["no units", "unit of length", "duration", "text", "one-dimensional",
             "coordinate", "two values", "integer"]


@st.composite
def variables(draw):
    out = []
    for name in draw(st.permutations(NAMES))[:draw(st.integers(0, 4))]:
        dims = list(draw(st.permutations(DIMS))[:draw(st.integers(0, 4))])
        if name in DIMS:
            dims = [name]
        out.append({
            "name": name, "dims": dims,
            "axes": [{"origin": draw(st.integers(0, 2)), "end": draw(st.integers(0, 2))}
                     for _ in dims],
            "dtype": draw(st.sampled_from(DTYPES)),
            "units": draw(st.sampled_from(UNITS)),
            "memory": draw(st.sampled_from(MEMORY)),
            "special": draw(st.booleans()),
        })
    return out


@st.composite
def moments(draw):
    calendar = draw(st.sampled_from(sorted(CALENDARS)))
    year = draw(st.sampled_from([1700, 1900, 1970, 2000, 2016, 2100, 2250] + (
        [] if calendar == "datetime" else [1, 2, 1583, 5000, 9999])))
    return {
        "calendar": calendar,
        "fields": [year, draw(st.integers(1, 12)), draw(st.integers(1, 28)),
                   draw(st.integers(0, 23)), draw(st.integers(0, 59)),
                   draw(st.integers(0, 59)),
                   draw(st.sampled_from([0, 0, 1, 123456, 500000, 999999]))],
    }


@st.composite
def cases(draw, tier):
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["write", "write", "write", "read", "read", "no time",
                               "foreign"]),
        "file": st.integers(0, 1),
        "state": st.integers(0, 1),
        "bad": st.sampled_from(BAD_TIMES),
        "scribble": st.booleans(),
        "order": seeds,
    })
    return {
        "lengths": rarely_large(draw, [draw(st.sampled_from([1, 2, 3, 4])) for _ in DIMS]),
        "states": [{"variables": draw(variables()), "time": draw(moments())}
                   for _ in range(2)],
        "where": [draw(st.sampled_from(["path", "path", "file", "memory", "memory"]))
                  for _ in range(2)],
        "file_names": [draw(st.sampled_from(["a.nc", "state", "2016 08.nc", "x.y.nc"]))
                       for _ in range(2)],
        "ops": draw(st.lists(op, min_size=1, max_size=8 if tier == "thorough" else 5)),
    }


def strategy(tier):
    return cases(tier)


def values_of(var, shape, salt):
    dtype = np.dtype(var["dtype"])
    ids = np.arange(int(np.prod(shape))).reshape(shape) + salt
    values = encode(ids, dtype)
    if var["special"] and values.size and dtype.kind != "b":
        if dtype.kind == "f":
            info = np.finfo(dtype)
            special = [np.nan, np.inf, -np.inf, -0.0, info.tiny / 4, info.max, info.min,
                       9.969209968386869e36, 1e20, -999.0]
        else:
            info = np.iinfo(dtype)
            special = [info.min, info.max, 0, -1, info.min + 1]
        flat = values.reshape(-1)
        for k in range(0, flat.size, 2):
            flat[k] = special[(k // 2 + salt) % len(special)]
        values = flat.reshape(shape)
    return values


class State:
    def __init__(self, util, spec, lengths, salt):
        self.spec = spec
        self.expected, self.entries, self.arrays = {}, {}, {}
        for k, var in enumerate(spec["variables"]):
            extent = tuple(lengths[DIMS.index(d)] for d in var["dims"])
            origin = tuple(a["origin"] for a in var["axes"])
            shape = tuple(o + e + a["end"]
                          for o, e, a in zip(origin, extent, var["axes"]))
            data = filled(values_of(dict(var, special=False), shape, 5 * k + 1),
                          np.dtype(var["dtype"]), var["memory"])
            compute = tuple(slice(o, o + e) for o, e in zip(origin, extent))
            values = values_of(var, extent, 17 * k + salt)
            data[compute] = values
            self.entries[var["name"]] = util.Quantity(
                data, dims=var["dims"], units=var["units"], origin=origin, extent=extent)
            self.arrays[var["name"]] = (data, data.copy())
            self.expected[var["name"]] = (tuple(var["dims"]), var["units"], values)
        cls = CALENDARS[spec["time"]["calendar"]]
        self.time = cls(*spec["time"]["fields"])

    def ordered(self, order, with_time=True):
        names = LCG(order).shuffled(sorted(self.entries) + ["time"] * with_time)
        return {n: self.time if n == "time" else self.entries[n] for n in names}

    def unchanged(self, what):
        for name, (data, saved) in self.arrays.items():
            require(same(data, saved), lambda: f"{what} changed variable {name}: "
                    f"{first_difference(data, saved)}")


def check_read(got, state, what):
    names = set(state.expected) | {"time"}
    require(set(got) == names, f"{what}: entries {sorted(got)}, written {sorted(names)}")
    t, want = got["time"], state.time
    fields = ("year", "month", "day", "hour", "minute", "second", "microsecond")
    cls = (cftime.DatetimeProlepticGregorian if isinstance(want, datetime.datetime)
           else type(want))
    require(type(t) is cls and all(getattr(t, f) == getattr(want, f) for f in fields),
            f"{what}: time {t!r}, written {want!r}")
    for name, (dims, units, values) in state.expected.items():
        q = got[name]
        require(tuple(q.dims) == dims, f"{what}: {name} has dims {q.dims}, written {dims}")
        require(q.units == units, f"{what}: {name} has units {q.units!r}, written {units!r}")
        require(tuple(q.extent) == values.shape,
                f"{what}: {name} has extent {q.extent}, written {values.shape}")
        data = np.asarray(q.view[:])
        require(data.dtype == values.dtype,
                f"{what}: {name} has dtype {data.dtype}, written {values.dtype}")
        bits = data.tobytes() == values.tobytes()
        require(bits, lambda: f"{what}: {name}: {first_difference(data, values)}")


def foreign(ctx, filesystem, filename, bad):
    """A file not written by write_state, whose time is not the date of a state."""
    import xarray as xr

    attrs = {"units": "days since 2000-01-01", "calendar": "julian"}
    dims, values = (), np.float64(3.5)
    if bad == "no units":
        attrs = {"calendar": "julian"}
    elif bad == "unit of length":
        attrs["units"] = "m"
    elif bad == "duration":
        attrs["units"] = "days"
    elif bad == "text":
        attrs, values = {}, "2016-08-01"
    elif bad == "integer":
        attrs, values = {"units": "days"}, np.int32(3)
    elif bad == "one-dimensional":
        dims, values = ("record",), np.array([3.5])
    elif bad == "two values":
        dims, values = ("record",), np.array([3.5, 4.5])
    elif bad == "coordinate":
        dims, values = ("time",), np.array([3.5])
    ds = xr.Dataset({"time": xr.DataArray(values, dims=dims, attrs=attrs)})
    ds["a"] = xr.DataArray(np.arange(3.0), dims=("x",), attrs={"units": "m"})
    contents = ds.to_netcdf()
    fs = filesystem.get_fs(filename)
    with fs.open(filename, "wb") as f:
        f.write(contents)


def check(case, ctx):
    import fsspec
    import fv3gfs.util as util
    from fv3gfs.util import filesystem, io

    base = os.path.join(ctx.scratch, "files")
    os.mkdir(base)
    files, held, names = [], {}, case["file_names"]
    for k in range(2):
        name = f"{k}{names[k]}"
        files.append({"path": os.path.join(base, name),
                      "file": "file://" + os.path.join(base, name),
                      "memory": f"memory://pbt{os.getpid()}/{name}"}[case["where"][k]])
    states = [State(util, s, case["lengths"], 101 * k + 7)
              for k, s in enumerate(case["states"])]
    results = []  # read earlier: (result, state, description)
    wrote = reread = 0
    try:
        for step, op in enumerate(case["ops"]):
            k, state = op["file"], states[op["state"]]
            what = f"op {step} ({op['op']} {case['where'][k]} file {k})"
            if op["op"] == "write":
                entries = state.ordered(op["order"])
                before = dict(entries)
                with ctx.sut(what):
                    out = io.write_state(entries, files[k])
                require(out is None, f"{what}: returned {out!r}")
                require(list(entries) == list(before)
                        and all(entries[n] is before[n] for n in before),
                        f"{what}: changed the state")
                held[k] = op["state"]
                wrote += 1
            elif op["op"] == "no time":
                ctx.raises(ValueError, lambda: io.write_state(
                    state.ordered(op["order"], with_time=False), files[k]), what)
            elif op["op"] == "foreign":
                foreign(ctx, filesystem, files[k], op["bad"])
                held.pop(k, None)
                ctx.raises(ValueError, lambda: io.read_state(files[k]),
                           f"{what}: {op['bad']}")
                ctx.label("bad time", op["bad"])
            if op["op"] in ("write", "read", "no time") and k in held:
                target = states[held[k]]
                with ctx.sut(f"{what}: reading back"):
                    got = io.read_state(files[k])
                check_read(got, target, what)
                results.append((got, target, what))
                reread += 1
                if op["scribble"]:
                    # what was read is an ordinary state of its own
                    again = io.read_state(files[k])
                    for name in target.expected:
                        q = again[name]
                        if q.data.size:
                            q.view[:] = np.zeros((), q.data.dtype)
                            require(not np.asarray(q.view[:]).any(),
                                    f"{what}: variable {name} cannot be assigned")
                    check_read(io.read_state(files[k]), target, f"{what}: read again")
                with ctx.sut(f"{what}: opening the file in two ways"):
                    require(filesystem.is_file(files[k]), f"{what}: not a file")
                    with filesystem.open(files[k], "rb") as f:
                        first = f.read()
                    with filesystem.open(files[k], mode="rb") as f:
                        second = f.read()
                require(isinstance(first, bytes) and first and first == second,
                        f"{what}: the file opened in two ways has different contents")
            elif op["op"] != "foreign" and k not in held and case["where"][k] != "memory":
                require(filesystem.is_file(files[k]) == os.path.isfile(
                    os.path.join(base, f"{k}{names[k]}")), f"{what}: is_file")
            for state_ in states:
                state_.unchanged(what)
            for got, target, where in results:
                check_read(got, target, f"{what}: state read in {where}")
    finally:
        if "memory" in case["where"]:
            fs = fsspec.filesystem("memory")
            for name in list(fs.store):
                if name.startswith(f"/pbt{os.getpid()}/"):
                    del fs.store[name]
    for k in range(2):
        ctx.label("where", case["where"][k])
    for s in states:
        ctx.label("calendar", s.spec["time"]["calendar"])
        for v in s.spec["variables"]:
            ctx.label("dtype", v["dtype"])
            ctx.label("units of time", v["units"][:4] in ("s", "seco", "hour", "days", "minu"))
    ctx.nontrivial(wrote > 0 and reread > 0 and any(
        v["axes"] and any(a["origin"] or a["end"] for a in v["axes"])
        for s in states for v in s.spec["variables"]))
