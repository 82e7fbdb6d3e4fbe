"""C39: repeating operations, also failing ones, piles up neither memory nor descriptors."""
import collections
import contextlib
import datetime
import gc
import os
import sysconfig
import threading
import time
import tracemalloc

import cftime
import fsspec
import numpy as np
from hypothesis import strategies as st

from .. import zarrs
from ..arrays import MEMORY, allocate, seeds
from ..bootstrap import REPO
from ..core import LCG, HarnessError, Violation, require
from ..sim import world_from
from . import c21_restart as c21

NEEDS_SCRATCH = True
REPEATS = 16  # in one phase
SLOW = {"restart", "missing restart", "zarr", "zarr alone"}  # repeated less often
TIME_S = 30.0  # of the processor: no phase is begun after it
PHASES = 12  # at most: ended early as soon as nothing grows

ALONE = ["quantities", "transpose", "to_xarray", "buffers", "failing buffers", "files",
         "missing file", "no time", "timer", "failing timer", "capture", "failing capture",
         "corners", "nudging", "lookups", "sizes", "from_namelist", "rotations", "bad quantity",
         "factory", "zarr alone", "filesystem"]
TOGETHER = ["halo", "halo", "vector", "vector", "sync", "rejected", "scatter", "gather",
            "scatter_state", "gather_state", "zarr", "restart", "missing restart",
            "communicator", "cube gather", "cube scatter"]


@st.composite
def cases(draw, tier):
    together = draw(st.booleans())
    layout = draw(st.sampled_from([1, 1, 1, 1, 2]))
    restart = draw(c21.cases("quick"))
    restart.update(layout=[1, 1], where="path", missing=None, label="", decoy=False,
                   variables=restart["variables"][:3])
    return {
        "together": together,
        "ops": draw(st.lists(st.sampled_from(TOGETHER if together else ALONE), min_size=1,
                             max_size=4 - together * layout, unique=True)),
        "cells": draw(st.integers(2, 3)), "halo": draw(st.integers(1, 2)),
        "layout": layout,
        "memory": [draw(st.sampled_from(MEMORY)) for _ in range(2)],
        "order": draw(st.permutations([0, 1, 2])),
        "fresh": draw(st.booleans()), "async": draw(st.booleans()),
        "given": draw(st.booleans()),
        "restart": restart,
        "seed": draw(seeds),
        "sched": {"mode": draw(st.sampled_from(["eager", "late", "sync"])),
                  "policy": draw(st.sampled_from(["roundrobin", "reverse", "random"])),
                  "seed": draw(seeds), "sync_coll": draw(st.booleans())},
    }


def strategy(tier):
    return cases(tier)


PACKAGE = os.path.realpath(REPO) + os.sep
PASSED = (os.path.dirname(os.path.realpath(np.__file__)) + os.sep,
          os.path.realpath(sysconfig.get_paths()["stdlib"]) + os.sep)
SITE = os.sep + "site-packages" + os.sep
BOOTSTRAP = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(__file__))),
                         "bootstrap.py")


def of_package(traceback):
    """Whether the package made an allocation, by itself or through numpy."""
    for frame in reversed(traceback):
        name = frame.filename
        if name.startswith(PACKAGE) and SITE not in name:
            return True
        if name == BOOTSTRAP or name.startswith(PASSED[0]):
            continue
        if name.startswith(PASSED[1]) and SITE not in name:
            continue
        return False
    return False


def measure():
    gc.collect()
    amounts = collections.Counter()
    for trace in tracemalloc.take_snapshot().traces:
        if of_package(trace.traceback):
            amounts["bytes allocated by the package"] += trace.size
    for thing in gc.get_objects():
        module = getattr(type(thing), "__module__", None)
        if isinstance(module, str) and module.startswith("fv3gfs."):
            amounts[f"objects of type {type(thing).__name__}"] += 1
    amounts["open file descriptors"] = len(os.listdir("/proc/self/fd"))
    amounts["threads"] = threading.active_count()
    return amounts


class Watch:
    """Decides after every phase whether to go on, and at last whether something piles up."""

    def __init__(self, repeats):
        self.repeats, self.amounts, self.calm = repeats, [], 0
        self.suspects = {}
        self.started, self.cpu = time.monotonic(), time.process_time()
        self.finished = False

    def after_phase(self):
        now, earlier = measure(), self.amounts
        if earlier:
            # single objects come and go, which are on Python's lists for re-use
            record = any(
                now[n] - max(a[n] for a in earlier) >= (64 if "bytes" in n else self.repeats // 2)
                for n in now)
            self.calm = 0 if record else self.calm + 1
        self.amounts = earlier + [now]
        if self.calm == 2 or (
                time.process_time() - self.cpu > TIME_S
                or time.monotonic() - self.started > 4 * TIME_S):
            self.finished = True
        elif len(self.amounts) == PHASES:
            self.finished = True
            for n in now:
                first = max(a[n] for a in self.amounts[:5])
                last = min(a[n] for a in self.amounts[-4:])
                if last - first >= (256 if "bytes" in n else 2 * self.repeats):
                    self.suspects[n] = [a[n] for a in self.amounts]


class Fault(Exception):
    pass


def expect(kinds, function, what):
    try:
        function()
    except kinds:
        return
    except (Violation, HarnessError):
        raise
    raise Violation(f"{what} was not rejected")


class Rank:
    """The operations of one rank (or of a single process)."""

    def __init__(self, util, case, comm, scratch, store):
        self.util, self.case, self.mpi, self.scratch = util, case, comm, scratch
        self.store = store
        self.part = util.CubedSpherePartitioner(
            util.TilePartitioner((case["layout"], case["layout"])))
        self.n, self.h = case["cells"], case["halo"]
        self.rank = 0 if comm is None else comm.Get_rank()
        self.cube = None if comm is None else util.CubedSphereCommunicator(comm, self.part)
        self.kept = {}
        self.timer = util.Timer()
        self.monitor = None

    def make(self, dims=("y", "x", "z"), memory=0, halo=None, kind="float64"):
        """A quantity with halos; another one in every repetition if the case wants it."""
        h = self.h if halo is None else halo
        key = (dims, memory, h, kind)
        if not self.case["fresh"] and key in self.kept:
            return self.kept[key]
        extent = [2 if d == "z" else self.n + ("interface" in d) for d in dims]
        shape = [e + 2 * h * (d != "z") for e, d in zip(extent, dims)]
        order = [i for i in self.case["order"] if i < len(dims)]
        data = allocate(tuple(shape[i] for i in order), kind, self.case["memory"][memory])
        data[...] = self.rank + 1
        q = self.util.Quantity(
            data, dims=[dims[i] for i in order], units="m",
            origin=[h * (dims[i] != "z") for i in order],
            extent=[extent[i] for i in order])
        if not self.case["fresh"]:
            self.kept[key] = q
        return q

    def state(self):
        return {"a": self.make(), "b": self.make(memory=1),
                "time": cftime.DatetimeJulian(2016, 8, 1)}

    def path(self, name):
        return os.path.join(self.scratch, name)

    # -- alone
    def op_quantities(self, k):
        q = self.make()
        q.view[:] = 2.0
        q.view.southwest[0, 0]
        q.view.interior[0:1, 0:1]
        q.metadata, q.attrs, q.extent
        self.util.Quantity.from_data_array(q.data_array)

    def op_transpose(self, k):
        q = self.make()
        q.transpose(["x", "z", "y"]).view[:] = 1.0
        q.transpose([self.util.X_DIMS, "z", "y"] if k % 2 else ["z", "y", "x"])

    def op_to_xarray(self, k):
        self.util.to_dataset(self.state())

    def op_buffers(self, k):
        with self.util.array_buffer(np.zeros, (3, 4), np.float64) as a, \
                self.util.array_buffer(np.zeros, (3, 4), np.float64) as b:
            a[...], b[...] = 1, 2
        data = np.zeros((4, 5)).T[::2]
        with self.util.send_buffer(np.zeros, data, self.timer) as buf:
            buf.sum()
        with self.util.recv_buffer(np.zeros, data, self.timer) as buf:
            buf[...] = 3

    def op_failing_buffers(self, k):
        def fail():
            with self.util.send_buffer(np.zeros, np.zeros((4, 5)).T):
                raise Fault()

        def fail_receive():
            with self.util.recv_buffer(np.zeros, np.zeros((4, 5)).T):
                raise Fault()

        expect(Fault, fail, "an error while sending")
        expect(Fault, fail_receive, "an error while receiving")

    def op_files(self, k):
        name = self.path(f"state{self.rank}.nc")
        self.util.write_state(self.state(), name)
        self.util.read_state(name)

    def op_missing_file(self, k):
        expect(FileNotFoundError, lambda: self.util.read_state(self.path("none.nc")),
               "a missing file")

    def op_no_time(self, k):
        state = self.state()
        del state["time"]
        expect(ValueError, lambda: self.util.write_state(state, self.path("no_time.nc")),
               "a state without a time")

    def op_timer(self, k):
        for name in ("a", "b"):
            with self.timer.clock(name):
                pass
        self.timer.times, self.timer.hits
        other = self.util.Timer()
        with other.clock("c"):
            pass
        if k % 3 == 0:
            self.timer.reset()

    def op_failing_timer(self, k):
        def fail():
            with self.timer.clock("a"):
                raise Fault()

        expect(Fault, fail, "an error while a clock is running")
        expect(KeyError, lambda: self.timer.stop("never started"), "a stop without start")

    def op_capture(self, k):
        with open(self.path("stream"), "wb", 0) as stream:
            with self.util.capture_stream(stream) as out:
                stream.write(b"x" * 50)
            out.getvalue()

    def op_failing_capture(self, k):
        def fail():
            with open(self.path("stream"), "wb", 0) as stream:
                with self.util.capture_stream(stream):
                    stream.write(b"x" * 50)
                    raise Fault()

        expect(Fault, fail, "an error while capturing")

    def op_corners(self, k):
        q = self.util.Quantity(
            np.zeros([self.n + 2 * self.h] * 2), ["x", "y"], "m", origin=[self.h] * 2,
            extent=[self.n] * 2)
        self.util.fill_scalar_corners(
            q, "xy"[k % 2], self.part.tile, self.rank, min(self.h, self.n))

    def op_nudging(self, k):
        state = {"a": self.make(), "b": self.make(memory=1)}
        reference = {"a": self.make(memory=1)}
        scale = {"a": datetime.timedelta(hours=3)}
        self.util.apply_nudging(state, reference, scale, datetime.timedelta(seconds=900))
        self.util.get_nudging_tendencies(state, reference, scale)

    def op_lookups(self, k):
        part = self.part
        for rank in range(min(6, part.total_ranks)):
            for kind in self.util.BOUNDARY_TYPES:
                part.boundary(kind, rank)
                part.tile.boundary(kind, rank)
            part.tile_index(rank), part.tile_root_rank(rank), part.tile.subtile_index(rank)
            self.util.get_tile_index(rank, 6), self.util.get_tile_number(rank, 6)

    def op_sizes(self, k):
        q = self.make()
        extent = self.part.global_extent(q.metadata)
        dims = ("tile",) + q.dims
        whole = self.util.Quantity(np.zeros(extent), dims, "m")
        self.part.subtile_extent(whole.metadata)
        for rank in range(self.part.total_ranks):
            self.part.subtile_slice(rank, dims, extent)
            self.part.tile.subtile_slice(
                rank % self.part.tile.total_ranks, q.dims, extent[1:], overlap=bool(k % 2))

    def op_from_namelist(self, k):
        namelist = {"fv_core_nml": {"layout": [1, 1], "npx": 5, "npy": 5, "npz": 3}}
        self.util.TilePartitioner.from_namelist(namelist)
        self.util.CubedSpherePartitioner.from_namelist(namelist)
        self.util.SubtileGridSizer.from_namelist(namelist)

    def op_rotations(self, k):
        from fv3gfs.util.rotate import rotate_scalar_data, rotate_vector_data

        data = np.zeros((3, 4))
        rotate_scalar_data(data, ["y", "x"], np, k % 4)
        rotate_vector_data(data, data, k % 4, ["y", "x"], np)
        self.util.units_are_equal("m/s", "m s**-1")
        expect(self.util.UnitsError, lambda: self.util.ensure_equal_units("m", "K"), "units")

    def op_bad_quantity(self, k):
        expect(ValueError, lambda: self.util.Quantity(
            np.zeros((3, 3)), ["y", "x", "z"], "m"), "a quantity with too many dims")
        expect(ValueError, lambda: self.make().transpose(["x", "y", "q"]),
               "an unknown dimension")

    def op_factory(self, k):
        sizer = self.util.SubtileGridSizer(
            nx=3, ny=4, nz=2, n_halo=1, extra_dim_lengths={"tracer": 2})
        factory = self.util.QuantityFactory(sizer, np)
        factory.zeros(["y", "x", "tracer"], units="m")
        factory.empty(["y", "x_interface"], units="m").view[:]

    def op_zarr_alone(self, k):
        if self.monitor is None or self.case["fresh"]:
            self.monitor = self.util.ZarrMonitor(self.store, self.part, mode="w")
        self.monitor.store(dict(
            self.state(), time=cftime.DatetimeJulian(2016, 8, 1)
            + datetime.timedelta(seconds=900 * k)))

    def op_filesystem(self, k):
        from fv3gfs.util import filesystem

        name = self.path("file.txt")
        with filesystem.open(name, "w") as f:
            f.write("text")
        filesystem.is_file(name), filesystem.get_fs(name)
        with filesystem.open(name, "r") as f:
            f.read()
        expect(FileNotFoundError, lambda: filesystem.open(self.path("none"), "r").__enter__(),
               "a missing file")

    # -- together
    def finish(self, late, blocking):
        if self.case["async"]:
            late().wait()
        else:
            blocking()

    def op_halo(self, k):
        q = self.make()
        self.finish(lambda: self.cube.start_halo_update(q, self.h),
                    lambda: self.cube.halo_update(q, self.h))

    def op_vector(self, k):
        x, y = self.make(), self.make(memory=1)
        self.finish(lambda: self.cube.start_vector_halo_update(x, y, self.h),
                    lambda: self.cube.vector_halo_update(x, y, self.h))

    def op_sync(self, k):
        x, y = self.make(("y_interface", "x")), self.make(("y", "x_interface"), memory=1)
        self.finish(lambda: self.cube.start_synchronize_vector_interfaces(x, y),
                    lambda: self.cube.synchronize_vector_interfaces(x, y))

    def op_rejected(self, k):
        q = self.make()
        expect(ValueError, lambda: self.cube.halo_update(q, 0), "no halo points")
        expect(ValueError, lambda: self.cube.vector_halo_update(q, q, 0), "no halo points")
        expect(ValueError, lambda: self.cube.synchronize_vector_interfaces(q, q),
               "components off the C grid")

    def op_scatter(self, k):
        tile = self.cube.tile
        send = None
        if tile.rank == 0:
            size = self.n * self.case["layout"]
            send = self.util.Quantity(np.zeros((size, size)), ["y", "x"], "m")
        tile.scatter(send, self.make(("y", "x")) if self.case["given"] else None)

    def op_gather(self, k):
        tile = self.cube.tile
        received = None
        if self.case["given"] and tile.rank == 0:
            size = self.n * self.case["layout"]
            received = self.util.Quantity(
                np.zeros((size, size)), self.make(("y", "x")).dims, "m")
        tile.gather(self.make(("y", "x")), received)

    def op_cube_gather(self, k):
        self.cube.gather(self.make(("y", "x")))

    def op_cube_scatter(self, k):
        send = None
        if self.rank == 0:
            size = self.n * self.case["layout"]
            send = self.util.Quantity(np.zeros((6, size, size)), ["tile", "y", "x"], "m")
        self.cube.scatter(send)

    def op_scatter_state(self, k):
        state = None
        if self.rank == 0:
            size = self.n * self.case["layout"]
            state = {name: self.util.Quantity(
                np.zeros((6, size, size)), ["tile", "y", "x"], "m") for name in "ab"}
            state["time"] = cftime.DatetimeJulian(2016, 8, 1)
        self.cube.scatter_state(state)

    def op_gather_state(self, k):
        self.cube.gather_state(self.state())

    def op_communicator(self, k):
        self.util.CubedSphereCommunicator(self.mpi, self.part).tile.gather(
            self.make(("y", "x")))

    def op_zarr(self, k):
        if self.monitor is None or self.case["fresh"]:
            self.monitor = self.util.ZarrMonitor(
                self.store, self.part, mode="w", mpi_comm=self.mpi)
        self.monitor.store(dict(
            self.state(), time=cftime.DatetimeJulian(2016, 8, 1)
            + datetime.timedelta(seconds=900 * k)))
        self.mpi.barrier()

    def op_restart(self, k):
        self.util.open_restart(self.path("restart"), self.cube)

    def op_missing_restart(self, k):
        if self.case["layout"] == 1:
            expect(FileNotFoundError,
                   lambda: self.util.open_restart(self.path("nothing"), self.cube),
                   "a missing restart directory")

    def once(self, k):
        for op in self.case["ops"]:
            try:
                getattr(self, "op_" + op.replace(" ", "_"))(k)
            except (Violation, HarnessError):
                raise
            except Exception as err:
                raise Violation(f"repetition {k} of {op}: {type(err).__name__}: {err}") from err


@contextlib.contextmanager
def tracing():
    gc.collect()
    tracemalloc.start(6)
    try:
        yield
    finally:
        tracemalloc.stop()


def check(case, ctx):
    import fv3gfs.util as util

    repeats = 6 if SLOW & set(case["ops"]) else REPEATS
    watch = Watch(repeats)
    if case["together"]:
        n_ranks = 6 * case["layout"] ** 2
        if "restart" in case["ops"]:
            # on one rank per tile only: the files hold that resolution
            restart = c21.Restart(case["restart"])
            os.mkdir(os.path.join(ctx.scratch, "restart"))
            try:
                restart.write(fsspec.filesystem("file"),
                              os.path.join(ctx.scratch, "restart"), "", 0)
            except Exception as err:  # noqa: BLE001
                raise HarnessError(f"writing the restart files failed: {err!r}")
            if case["layout"] > 1:
                case = dict(case, layout=1)
                n_ranks = 6
        world = world_from(n_ranks, case["sched"])
        store = zarrs.SharedStore(world)

        def program(comm):
            me = Rank(util, case, comm, ctx.scratch, store)
            k = 0
            while not watch.finished:
                for _ in range(repeats):
                    me.once(k)
                    k += 1
                comm.barrier()
                if me.rank == 0:
                    watch.after_phase()
                comm.barrier()
            return k

        try:
            with tracing():
                done = world.run(program)
        finally:
            zarrs.STORES.clear()
        repetitions = done[0]
    else:
        single = LCG(case["seed"]).next(2)
        me = Rank(util, dict(case, layout=1 if single else case["layout"]), None, ctx.scratch,
                  zarrs.SharedStore())
        repetitions = 0
        try:
            with tracing():
                while not watch.finished:
                    for _ in range(repeats):
                        me.once(repetitions)
                        repetitions += 1
                    watch.after_phase()
        finally:
            zarrs.STORES.clear()
    require(not watch.suspects,
            lambda: f"repeating {', '.join(case['ops'])} ({repeats} times in each phase): "
            + "; ".join(f"{n}: {amounts}" for n, amounts in sorted(watch.suspects.items())))
    for op in case["ops"]:
        ctx.label("operation", op)
    ctx.label("phases", len(watch.amounts))
    ctx.label("fresh quantities", case["fresh"])
    ctx.nontrivial(repetitions >= 2 * repeats)
