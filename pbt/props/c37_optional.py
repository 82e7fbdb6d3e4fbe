"""C37: only what uses an optional library needs it."""
import contextlib
import datetime
import importlib
import importlib.abc
import io
import os
import sys
import warnings

import cftime
import numpy as np
from hypothesis import strategies as st

from ..arrays import MEMORY, encode, filled, schedules, seeds
from ..core import LCG, HarnessError, fail, require
from ..sim import world_from

NEEDS_SCRATCH = True
DTYPES = ["float64", "float32", "int32", "int16"]
# what an operation may need; anything else works without
NEEDS = {
    "partition": (), "views": (), "transpose": (), "values": (), "copy": (), "exchange": (),
    "vector": (), "sync": (), "collect": (), "states": (), "nudging": (), "timer": (),
    "capture": (), "units": (), "corners": (), "factory": (), "buffers": (), "times": (),
    "files": (), "rotation": (), "timeless": (),
    "data_array": ("xarray",), "to_dataset": ("xarray",), "write": ("xarray",),
    "read": ("xarray",), "restart": ("xarray",), "zarr": ("zarr", "xarray"),
}


@st.composite
def cases(draw, tier):
    return {
        "missing": draw(st.sampled_from([["xarray"], ["zarr"], ["xarray", "zarr"]])),
        # imported anew, or in use since an earlier case
        "fresh": draw(st.sampled_from([False, False, False, True])),
        "cells": draw(st.integers(1, 4)),
        "extra": draw(st.integers(1, 3)),
        "memory": draw(st.sampled_from(MEMORY)),
        "dtype": draw(st.sampled_from(DTYPES)),
        "ops": draw(st.lists(st.fixed_dictionaries({
            "op": st.sampled_from(sorted(NEEDS)), "seed": seeds}), min_size=1, max_size=6)),
        "sched": draw(schedules(False)),
    }


def strategy(tier):
    return cases(tier)


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, missing):
        self.missing = missing

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.missing:
            root = name.split(".")[0]
            raise ModuleNotFoundError(f"No module named {root!r}", name=root)
        return None


def rooted(names):
    return {m: v for m, v in sys.modules.items() if m.split(".")[0] in names}


PACKAGES = {}  # missing libraries -> modules of the package imported without them


@contextlib.contextmanager
def without(missing, fresh):
    """The package as it is on a machine that lacks some optional libraries."""
    hidden = rooted(tuple(missing) + ("fv3gfs",))
    blocker = Blocker(tuple(missing))
    old_prefix, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent-pycache"
    for name in hidden:
        del sys.modules[name]
    sys.meta_path.insert(0, blocker)
    try:
        if fresh:
            PACKAGES.pop(tuple(missing), None)
        sys.modules.update(PACKAGES.get(tuple(missing), {}))
        try:
            package = importlib.import_module("fv3gfs.util")
        except Exception as err:  # noqa: BLE001
            fail(f"importing the package without {missing}: {type(err).__name__}: {err}")
        PACKAGES[tuple(missing)] = rooted(("fv3gfs",))
        yield package
    finally:
        sys.meta_path.remove(blocker)
        for name in rooted(tuple(missing) + ("fv3gfs",)):
            del sys.modules[name]
        sys.modules.update(hidden)
        sys.pycache_prefix = old_prefix


def digest(value):
    """What an operation returned, comparable between two imports of the package."""
    if isinstance(value, np.ndarray):
        return (str(value.dtype), value.shape, value.tobytes())
    if hasattr(value, "gt4py_backend") and hasattr(value, "view"):
        return ("quantity", digest(np.array(value.data)), value.dims, value.units, value.origin,
                value.extent)
    if isinstance(value, dict):
        return tuple(sorted((str(k), digest(v)) for k, v in value.items()))
    if isinstance(value, (list, tuple)):
        return tuple(digest(v) for v in value)
    if isinstance(value, (str, bytes, int, float, bool, type(None), np.generic)):
        return value
    return f"{type(value).__name__} {value}"


class Operations:
    def __init__(self, util, case, top, missing):
        self.util, self.case, self.top, self.missing = util, case, top, missing

    def array(self, shape, seed):
        ids = np.arange(int(np.prod(shape))).reshape(shape) + seed % 1009
        return filled(encode(ids, self.case["dtype"]), np.dtype(self.case["dtype"]),
                      self.case["memory"])

    def quantity(self, dims, seed, halo=0, units="m"):
        n = self.case["cells"]
        extent = [self.case["extra"] if d[0] == "z" else n + d.endswith("_interface")
                  for d in dims]
        halos = [0 if d[0] == "z" else halo for d in dims]
        data = self.array([e + 2 * h for e, h in zip(extent, halos)], seed)
        return self.util.Quantity(data, dims, units, origin=tuple(halos), extent=tuple(extent))

    def cube(self, comm):
        util = self.util
        return util.CubedSphereCommunicator(
            comm, util.CubedSpherePartitioner(util.TilePartitioner((1, 1))))

    def world(self, program):
        def ranked(comm):
            try:
                return program(comm)
            except ImportError as err:
                return err

        results = world_from(6, self.case["sched"]).run(ranked)
        for r in results:
            if isinstance(r, ImportError):
                raise r
        return results

    # needs nothing
    def partition(self, seed):
        rng, util = LCG(seed), self.util
        layout = (1 + rng.next(4),) * 2
        part = util.CubedSpherePartitioner(util.TilePartitioner(layout))
        rank = rng.next(part.total_ranks)
        found = [part.boundary(k, rank) for k in range(8)]
        return [[b and (b.from_rank, b.to_rank, b.n_clockwise_rotations) for b in found],
                str(part.subtile_slice(rank, ("tile", "y", "x"),
                                       (6, 3 * layout[0], 2 * layout[1]), overlap=True))]

    def views(self, seed):
        q = self.quantity(("z", "y", "x_interface"), seed, 2)
        q.view[0, -1] = 7
        q.view.northeast[:, -1:1] += 1
        return [q, q.view.interior[:, 0:0], q.sel(z=0), q.view.southwest.sel(y=0)]

    def transpose(self, seed):
        order = LCG(seed).shuffled(["x", "y", "z"])
        return self.quantity(("z", "y", "x"), seed, 1).transpose(order)

    def values(self, seed):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.quantity(("y", "x"), seed, 1).values

    def copy(self, seed):
        import copy
        import pickle

        q = self.quantity(("y", "x"), seed, 1)
        return [copy.deepcopy(q), copy.copy(q), pickle.loads(pickle.dumps(q.metadata)).dims]

    def exchange(self, seed):
        def program(comm):
            q = self.quantity(("y", "x"), seed + 50 * comm.Get_rank(), 1)
            self.cube(comm).halo_update(q, 1)
            return digest(q)

        return self.world(program)

    def vector(self, seed):
        def program(comm):
            x = self.quantity(("z", "y_interface", "x"), seed + 50 * comm.Get_rank(), 1)
            y = self.quantity(("z", "y", "x_interface"), seed + 77 * comm.Get_rank(), 1)
            self.cube(comm).vector_halo_update(x, y, 1)
            return digest([x, y])

        return self.world(program)

    def sync(self, seed):
        def program(comm):
            x = self.quantity(("y_interface", "x"), seed + 50 * comm.Get_rank())
            y = self.quantity(("y", "x_interface"), seed + 77 * comm.Get_rank())
            self.cube(comm).synchronize_vector_interfaces(x, y)
            return digest([x, y])

        return self.world(program)

    def collect(self, seed):
        def program(comm):
            cube = self.cube(comm)
            q = self.quantity(("y", "x"), seed + 50 * comm.Get_rank(), 1)
            full = cube.gather(q)
            return digest([full, cube.scatter(full)])

        return self.world(program)

    def states(self, seed):
        def program(comm):
            cube = self.cube(comm)
            state = {"time": cftime.DatetimeJulian(2016, 1, 1 + seed % 28),
                     "b": self.quantity(("y", "x"), seed + comm.Get_rank()),
                     "a": self.quantity(("z", "x_interface"), seed)}
            full = cube.gather_state(state)
            return digest(cube.scatter_state(full))

        return self.world(program)

    def nudging(self, seed):
        state = {n: self.quantity(("y", "x"), seed + k, 1) for k, n in enumerate("ab")}
        for n in state:
            state[n] = self.util.Quantity(state[n].data.astype(float), ("y", "x"), "m")
        reference = {"a": state["b"]}
        with np.errstate(all="ignore"):
            out = self.util.apply_nudging(state, reference, {"a": datetime.timedelta(hours=1)},
                                          datetime.timedelta(seconds=900))
        return [state, out]

    def timer(self, seed):
        timer = self.util.Timer()
        for name in "aba"[: 1 + seed % 3]:
            with timer.clock(name):
                pass
        null = self.util.NullTimer()
        with null.clock("a"):
            pass
        return [timer.hits, sorted(timer.times), null.hits]

    def capture(self, seed):
        path = os.path.join(self.top, "captured")
        with open(path, "wb") as stream:
            with self.util.capture_stream(stream) as out:
                stream.write(b"seed %d" % seed)
                stream.flush()
            stream.write(b"after")
        with open(path, "rb") as f:
            return [out.getvalue(), f.read()]

    def units(self, seed):
        return [self.util.units_are_equal(a, b) for a in ("m", " m", "s") for b in ("m", "s ")]

    def corners(self, seed):
        q = self.quantity(("x", "y_interface"), seed, 1)
        self.util.fill_scalar_corners(
            q, "xy"[seed % 2], self.util.TilePartitioner((1, 1)), 0, 1)
        return q

    def factory(self, seed):
        util = self.util
        sizer = util.SubtileGridSizer.from_tile_params(
            nx_tile=8, ny_tile=8, nz=3, n_halo=2, extra_dim_lengths={"land": 2},
            layout=(1 + seed % 2, 2))
        factory = util.QuantityFactory(sizer, np)
        return [factory.zeros(["z", "y_interface", "x"], "m", dtype="float32"),
                factory.ones(["land", "x"], "K")]

    def buffers(self, seed):
        util = self.util
        source, target = self.array((3, 2), seed), self.array((3, 2), seed + 5)
        with util.send_buffer(np.empty, source) as sent, util.recv_buffer(
                np.empty, target) as received:
            received[:] = sent
        with util.array_buffer(np.empty, (2, 2), self.case["dtype"]) as buffer:
            shape = buffer.shape
        return [source, target, shape]

    def times(self, seed):
        when = np.datetime64("2016-08-01T00:15:00") + np.timedelta64(seed % 10 ** 9, "us")
        text = "     2\n  2016 8 1 0 0 0\n  2016 8 %d 0 15 0\n" % (1 + seed % 28)
        module = importlib.import_module("fv3gfs.util.io")
        return [self.util.datetime64_to_datetime(when).isoformat(),
                module.get_current_date_from_coupler_res(io.StringIO(text))]

    def files(self, seed):
        module = importlib.import_module("fv3gfs.util.filesystem")
        path = os.path.join(self.top, f"file{seed % 3}")
        with module.open(path, "wb") as f:
            f.write(b"x")
        with module.open(path, "rb") as f:
            return [f.read(), module.is_file(path), module.is_file(path + "no")]

    def rotation(self, seed):
        module = importlib.import_module("fv3gfs.util.rotate")
        return [module.rotate_scalar_data(self.array((2, 3), seed), ("y", "x"), np, k)
                for k in range(-1, 5)]

    def timeless(self, seed):
        """A state without time is rejected whether or not it could be written."""
        path = os.path.join(self.top, "timeless.nc")
        try:
            self.util.write_state({"a": self.quantity(("y", "x"), seed)}, path)
        except ValueError:
            return ["rejected", os.path.exists(path)]
        return ["written"]

    # needs xarray
    def state(self, seed):
        return {"time": cftime.DatetimeJulian(2016, 1 + seed % 12, 2, 3),
                "a": self.quantity(("y", "x"), seed, 1),
                "b": self.quantity(("z", "x_interface"), seed + 3)}

    def data_array(self, seed):
        array = self.quantity(("y", "x"), seed, 1).data_array
        return [np.array(array.values), tuple(array.dims), dict(array.attrs)]

    def to_dataset(self, seed):
        ds = self.util.to_dataset(self.state(seed))
        return {str(n): [np.array(ds[n].values), ds[n].dims] for n in ds if n != "time"}

    def write(self, seed):
        path = os.path.join(self.top, f"written{seed % 2}.nc")
        before = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                before = f.read()
        try:
            self.util.write_state(self.state(seed), path)
        except ImportError:
            after = None
            if os.path.exists(path):
                with open(path, "rb") as f:
                    after = f.read()
            require(after == before, "a state that could not be written damaged its file")
            raise
        with open(path, "rb") as f:
            return f.read()

    def read(self, seed):
        return self.util.read_state(os.path.join(self.top, "..", "given.nc"))

    def restart(self, seed):
        def program(comm):
            return digest(self.util.open_restart(
                os.path.join(self.top, "..", "restart"), self.cube(comm)))

        return self.world(program)

    # needs zarr (and xarray)
    def zarr(self, seed):
        util, store = self.util, {}
        monitor = util.ZarrMonitor(store, util.CubedSpherePartitioner(
            util.TilePartitioner((1, 1))), mode="w")
        for k in range(1 + seed % 2):
            monitor.store(dict(self.state(seed + k)))
        return {k: bytes(v) for k, v in store.items()}


def prepare(top):
    """Files that other machines, with all libraries, have written."""
    from scipy.io import netcdf_file

    import fv3gfs.util as util

    util.write_state({"time": cftime.DatetimeJulian(2016, 8, 1), "a": util.Quantity(
        np.arange(6.0).reshape(2, 3), ("y", "x"), "m")}, os.path.join(top, "given.nc"))
    os.mkdir(os.path.join(top, "restart"))
    for tile in range(1, 7):
        for name, variable in (("fv_core.res", "T"), ("fv_srf_wnd.res", "u_srf"),
                               ("fv_tracer.res", "sphum")):
            path = os.path.join(top, "restart", f"{name}.tile{tile}.nc")
            with netcdf_file(path, "w") as f:
                for d, n in (("Time", 1), ("zaxis_1", 2), ("yaxis_1", 3),
                             ("xaxis_1", 3)):
                    f.createDimension(d, n)
                f.createVariable("Time", "f8", ("Time",))[:] = 1
                dims = ("zaxis_1", "yaxis_1", "xaxis_1")[1 if variable == "u_srf" else 0:]
                v = f.createVariable(variable, "f8", ("Time",) + dims)
                v[:] = tile + np.arange(int(np.prod(v.shape))).reshape(v.shape)
                v.units = "m/s"
    with open(os.path.join(top, "restart", "coupler.res"), "w") as f:
        f.write("     2\n  2016 8 1 0 0 0\n  2016 8 3 0 15 0\n")


def perform(util, case, top, missing):
    os.mkdir(top)
    operations = Operations(util, case, top, missing)
    out = []
    for k, op in enumerate(case["ops"]):
        try:
            out.append(("result", digest(getattr(operations, op["op"])(op["seed"]))))
        except ImportError as err:
            out.append(("missing", err.name or str(err)))
    return out


def check(case, ctx):
    import fv3gfs.util as util

    top = ctx.scratch
    prepare(top)
    with ctx.sut("with all libraries"):
        full = perform(util, case, os.path.join(top, "full"), ())
    if any(kind == "missing" for kind, _ in full):
        raise HarnessError(f"a library is missing here: {full}")
    missing = tuple(case["missing"])
    with without(missing, case["fresh"]) as package:
        require(package is not util, "the package was not imported anew")
        with ctx.sut(f"without {missing}"):
            got = perform(package, case, os.path.join(top, "without"), missing)
    used = 0
    for k, (op, (kind, value)) in enumerate(zip(case["ops"], got)):
        what = f"op {k} ({op['op']}) without {', '.join(missing)}"
        needed = [n for n in NEEDS[op["op"]] if n in missing]
        ctx.label(op["op"], kind)
        if kind == "missing":
            require(needed, f"{what}: needs {value}")
            require(any(name in value for name in needed), f"{what}: reports {value!r} as missing")
            used += 1
        else:
            require(value == full[k][1],
                    lambda: f"{what}: got {value!r:.300}, with it {full[k][1]!r:.300}")
    ctx.label("missing", "+".join(missing))
    ctx.nontrivial(used > 0 or len(case["ops"]) > 1)
