"""Programs of overlapping exchanges, executed by every rank of a simulated world."""
import cftime
import numpy as np
import zarr
from hypothesis import strategies as st

from . import fields as F
from . import zarrs
from .arrays import same, schedules, seeds
from .core import LCG, fail, require
from .props import c06_sync_interfaces as c06
from .sim import world_from

GOOD_OPS = ["start", "start", "start", "start", "start", "wait", "wait", "wait_all",
            "blocking", "scatter", "gather", "renew", "barrier", "touch", "start_all"]
# further collective operations of the package
COLLECTIVE_OPS = ["cube_scatter", "cube_gather", "states", "zarr"]
BAD_OPS = ["zero", "zero_vector", "too_wide", "too_wide_vector", "wrong_grid"]


@st.composite
def one_slot(draw, grid):
    """The quantities of one exchange."""
    kind = draw(st.sampled_from(["scalar", "scalar", "vector", "sync"]))
    extra = draw(F.extras(1, 2))
    # quantities of different resolutions may share a communicator
    cells = draw(st.sampled_from([grid["cells"]] * 3 + [1, 2, 3]))
    n = draw(F.halo_widths(cells))
    slot = {
        "kind": kind, "extra": extra, "n": n, "cells": cells,
        "x": draw(F.layouts_in_memory(n, n, extra)),
        "dtype": draw(st.sampled_from(
            F.SCALAR_DTYPES if kind == "scalar" else F.VECTOR_DTYPES)),
        "stagger": draw(st.sampled_from("AB" if kind == "scalar" else "ABCD")),
    }
    if kind == "sync":
        slot["stagger"] = "C"
    if kind != "scalar":
        slot["y"] = dict(draw(F.layouts_in_memory(n, n, extra)), order=slot["x"]["order"])
    return slot


@st.composite
def programs(draw, tier, bad=False, more_ops=()):
    deep = tier == "thorough"
    grid = draw(F.grids(3, 3, (1, 1, 2, 2, 3) if deep else (1, 1, 1, 2, 2, 3)))
    small = grid["layout"] < 3
    slots = []
    # now and then very many exchanges of small fields are in flight
    many = small and draw(st.integers(0, 11)) == 0
    if many:
        grid = {"layout": 1, "cells": grid["cells"]}
    for _ in range(draw(st.sampled_from([9, 18, 27, 36]) if many else st.sampled_from(
            [1, 2, 3, 4, 4] if small else [1, 2, 3]))):
        if many and len(slots) >= 3:
            slots.append(slots[draw(st.integers(0, 2))])
            continue
        slots.append(draw(one_slot(grid)))
    ops = GOOD_OPS + (BAD_OPS * 2 if bad else []) + list(more_ops)
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(ops),
            "slot": st.integers(0, 35 if many else 3),
            "n": st.integers(1, 4),
            "seed": seeds,
        }
    )
    if bad:
        # twins of one name: at least one rejected call in every history
        first_bad = draw(st.fixed_dictionaries(
            {"op": st.sampled_from(BAD_OPS), "slot": st.integers(0, 35 if many else 3),
             "n": st.integers(1, 4), "seed": seeds}))
        history = draw(st.lists(op, max_size=12 if small else 6))
        history.insert(draw(st.integers(0, len(history))), first_bad)
        history.append({"op": "blocking", "slot": draw(st.integers(0, 3)),
                        "n": draw(st.integers(1, 4)), "seed": 0})
    else:
        history = draw(st.lists(op, min_size=3, max_size=16 if small else 8))
    if many:
        history = [{"op": "start_all", "slot": draw(st.integers(0, 35)), "n": 1, "seed": 0}
                   ] + history[:8]
    return {
        "grid": grid,
        "slots": slots,
        "ops": history,
        "sched": draw(schedules(True)),
        "same_wait_order": draw(st.booleans()),
    }


class Slot:
    """One rank's quantities of one slot."""

    def __init__(self, util, grid, rank, spec):
        self.spec, self.kind, self.n = spec, spec["kind"], spec["n"]
        xs, ys = F.STAGGER[spec["stagger"]]
        grid = dict(grid, cells=spec["cells"])
        make = lambda s, stag: F.Field(  # noqa: E731
            grid, rank, s, spec["extra"], stag[0], stag[1], spec["dtype"])
        self.fields = [make(spec["x"], xs)]
        if self.kind != "scalar":
            self.fields.append(make(spec["y"], ys))
        self.quantities = [f.quantity(util) for f in self.fields]
        self.request = None
        self.before = None
        self.salt = 0

    @property
    def components(self):
        return ["x", "y"] if self.kind != "scalar" else [None]

    def prepare(self, salt):
        self.salt = salt
        for k, (field, comp) in enumerate(zip(self.fields, self.components)):
            field.scramble(salt * 2 + k)
            if self.kind != "sync":
                field.set_interior(salt, comp)
        self.before = [f.data.copy() for f in self.fields]

    def check_halo(self, n_points, what):
        for field, comp, old in zip(self.fields, self.components, self.before):
            field.check(field.expected_after_halo(old, n_points, self.salt, comp), what)

    def check_unchanged(self, what):
        for field, old in zip(self.fields, self.before):
            field.check(old, what)


X_NAMES, Y_NAMES = [["x"], ["x_interface"], []], [["y"], ["y_interface"], []]


def off_grid(util, slot, lcg):
    """A pair of quantities of which at least one is not where the C grid wants it."""
    while True:
        pair = []
        for c in range(2):
            if lcg.next(3):
                # staggered as the C grid wants it
                names = [["y_interface", "x"], ["y", "x_interface"]][c]
            else:
                names = Y_NAMES[lcg.next(3)] + X_NAMES[lcg.next(3)]
            pair.append(lcg.shuffled(names + ["z"] * lcg.next(2)))
        if not (set(pair[0]) >= {"y_interface", "x"} and set(pair[1]) >= {"y", "x_interface"}):
            break
    n = slot.spec["cells"]
    made = []
    for names in pair:
        extent = [n + ("interface" in name) for name in names]
        made.append(util.Quantity(np.zeros([e + 2 for e in extent]), names, "m/s",
                                  origin=[1] * len(names), extent=extent))
    return made


def run(case, ctx, watch=None):
    """watch(rank, communicator) makes an object that is told about communicators, exchanges
    and operations of other names."""
    import fv3gfs.util as util

    grid = case["grid"]
    layout, cells = grid["layout"], grid["cells"]
    n_ranks = 6 * layout * layout
    mode = case["sched"]["mode"]
    same_order = case["same_wait_order"] or mode == "sync"
    with ctx.sut("partitioner"):
        part = util.CubedSpherePartitioner(util.TilePartitioner((layout, layout)))
    n_in_flight = [0]
    stores = {}

    def program(comm):
        rank = comm.Get_rank()
        mine = [Slot(util, grid, rank, s) for s in case["slots"]]
        for k, s in enumerate(mine):
            s.prepare(k + 1)
        cube_comm = util.CubedSphereCommunicator(comm, part)
        watcher = watch(rank, cube_comm) if watch else None
        in_flight = []  # slot indices, in start order
        widths = {}
        sync_log = {}

        def begin(i, n, step, blocking=False):
            s = mine[i]
            s.prepare(10 + step)
            if s.kind == "sync":
                sync_log.setdefault(i, []).append(
                    {"before": [f.data.copy() for f in s.fields], "after": None})
                call = (cube_comm.synchronize_vector_interfaces if blocking
                        else cube_comm.start_synchronize_vector_interfaces)
                return call(*s.quantities)
            widths[i] = 1 + n % s.n
            if s.kind == "scalar":
                call = cube_comm.halo_update if blocking else cube_comm.start_halo_update
            else:
                call = (cube_comm.vector_halo_update if blocking
                        else cube_comm.start_vector_halo_update)
            return call(*s.quantities, widths[i])

        def done(i, step, blocking=False):
            s = mine[i]
            if s.kind == "sync":
                sync_log[i][-1]["after"] = [f.data.copy() for f in s.fields]
            else:
                s.check_halo(widths[i], f"op {step}: slot {i} ({s.kind}, {widths[i]} points)")
            s.before = [f.data.copy() for f in s.fields]
            if watcher:
                watcher.exchanged(s.kind, f"op {step}", blocking)

        def wait(i, step):
            mine[i].request.wait()
            mine[i].request = None
            in_flight.remove(i)
            done(i, step)

        def wait_order(seed):
            return LCG(seed + (0 if same_order else rank * 7 + 1)).shuffled(in_flight)

        def rejected(exc, call, what):
            try:
                call()
            except exc:
                pass
            except Exception as err:  # noqa: BLE001
                fail(f"{what}: {type(err).__name__}: {err} instead of {exc}")
            else:
                fail(f"{what}: accepted")
            for i, s in enumerate(mine):
                if i not in in_flight:
                    s.check_unchanged(f"{what}: rejected call changed slot {i}")

        def collective(name, step):
            n, per_tile = layout * cells, layout * layout
            tile, (j, ii) = rank // per_tile, divmod(rank % per_tile, layout)
            part_of = (slice(j * cells, (j + 1) * cells), slice(ii * cells, (ii + 1) * cells))
            full = (np.arange(6 * n * n).reshape(6, n, n) + 1009 * step).astype("float64")
            mine_now = util.Quantity(full[(tile,) + part_of].copy(), ["y", "x"], "m")
            what = f"op {step}: {name} in between"
            if name == "cube_scatter":
                send = util.Quantity(full.copy(), ["tile", "y", "x"], "m") if rank == 0 else None
                got = cube_comm.scatter(send_quantity=send)
                require(np.array_equal(got.view[:], mine_now.view[:]), what)
            elif name == "cube_gather":
                got = cube_comm.gather(mine_now)
                require((got is None) == (rank != 0), f"{what}: result on rank {rank}")
                require(rank != 0 or np.array_equal(got.view[:], full), what)
            elif name == "states":
                time = cftime.DatetimeJulian(2016, 8, 1, step)
                state = {"b": mine_now, "time": time, "a": util.Quantity(
                    -mine_now.data, ["y", "x"], "m")}
                gathered = cube_comm.tile.gather_state(state)
                if rank % per_tile == 0:
                    require(np.array_equal(gathered["b"].view[:], full[tile])
                            and np.array_equal(gathered["a"].view[:], -full[tile]), what)
                back = cube_comm.tile.scatter_state(gathered)
                require(back["time"] == time and set(back) == {"a", "b", "time"} and all(
                    np.array_equal(back[k].view[:], state[k].view[:]) for k in "ab"), what)
            else:
                if step not in stores:
                    stores[step] = zarrs.SharedStore(world)
                store = stores[step]
                monitor = util.ZarrMonitor(store, part, mode="w", mpi_comm=comm)
                for k in range(2):
                    mine_now.data[:] = full[(tile,) + part_of] + k
                    monitor.store({"q": mine_now, "time": cftime.DatetimeJulian(2016, 8, 1, k)})
                comm.barrier()
                if rank == 0:
                    array = np.array(zarr.open_group(store, mode="r")["q"])
                    require(np.array_equal(array, np.stack([full, full + 1])), what)

        for step, op in enumerate(case["ops"]):
            name, i = op["op"], op["slot"] % len(mine)
            s = mine[i]
            if watcher:
                watcher.before(f"op {step} ({name})")
            if name == "start" or name == "blocking":
                free = [k for k in range(i, i + len(mine)) if k % len(mine) not in in_flight]
                if not free:
                    continue
                i = free[0] % len(mine)
                s = mine[i]
                if name == "start":
                    s.request = begin(i, op["n"], step)
                    in_flight.append(i)
                    n_in_flight[0] = max(n_in_flight[0], len(in_flight))
                else:
                    begin(i, op["n"], step, blocking=True)
                    done(i, step, blocking=True)
            elif name == "start_all":
                for i in list(range(i, len(mine))) + list(range(i)):
                    if i not in in_flight:
                        mine[i].request = begin(i, op["n"], step)
                        in_flight.append(i)
                n_in_flight[0] = max(n_in_flight[0], len(in_flight))
            elif name == "wait":
                if in_flight:
                    wait(in_flight[op["seed"] % len(in_flight)], step)
            elif name == "wait_all":
                for i in wait_order(op["seed"]):
                    wait(i, step)
            elif name == "barrier":
                comm.barrier()
            elif name == "renew":
                if not in_flight:
                    cube_comm = util.CubedSphereCommunicator(comm, part)
                    if watcher:
                        watcher.renewed(cube_comm)
            elif name == "touch":
                if i not in in_flight:
                    s.prepare(500 + step)
            elif name in ("scatter", "gather"):
                tile = cube_comm.tile
                n = layout * cells
                per_tile = layout * layout
                j, ii = divmod(rank % per_tile, layout)
                full = (np.arange(n * n).reshape(n, n) + 1000 * (rank // per_tile)
                        + 100003 * step).astype("float64")
                part_ = full[j * cells:(j + 1) * cells, ii * cells:(ii + 1) * cells]
                if name == "scatter":
                    send = None
                    if tile.rank == 0:
                        send = util.Quantity(full.copy(), ["y", "x"], "m")
                    got = tile.scatter(send_quantity=send)
                    require((got.view[:] == part_).all(), f"op {step}: scatter in between")
                else:
                    send = util.Quantity(part_.copy(), ["y", "x"], "m")
                    got = tile.gather(send)
                    if tile.rank == 0:
                        require((got.view[:] == full).all(), f"op {step}: gather in between")
                    else:
                        require(got is None, f"op {step}: gather result on rank {rank}")
            elif name in COLLECTIVE_OPS:
                collective(name, step)
            elif name == "zero" and s.kind == "scalar" and i not in in_flight:
                rejected(ValueError, lambda: cube_comm.halo_update(s.quantities[0], 0),
                         f"op {step}: zero points")
            elif name == "zero_vector" and s.kind == "vector" and i not in in_flight:
                rejected(ValueError, lambda: cube_comm.vector_halo_update(*s.quantities, 0),
                         f"op {step}: vector, zero points")
            elif name in ("too_wide", "too_wide_vector") and i not in in_flight:
                if (s.kind == "scalar") != (name == "too_wide"):
                    continue
                specs = [s.spec["x"]] + ([s.spec["y"]] if s.kind != "scalar" else [])
                room = min(min(p["start"] + p["end"]) for p in specs)
                if name == "too_wide":
                    call = lambda: cube_comm.halo_update(  # noqa: E731
                        s.quantities[0], room + op["n"])
                else:
                    call = lambda: cube_comm.vector_halo_update(  # noqa: E731
                        *s.quantities, room + op["n"])
                rejected(util.OutOfBoundsError, call,
                         f"op {step}: {room + op['n']} points with a halo of {room}")
            elif name == "wrong_grid" and i not in in_flight:
                bad = off_grid(util, s, LCG(op["seed"]))
                rejected(ValueError,
                         lambda: cube_comm.synchronize_vector_interfaces(*bad),
                         f"op {step}: dims {bad[0].dims} and {bad[1].dims}")
            if watcher:
                watcher.operation(name, op, f"op {step} ({name})")
        for i in wait_order(12345):
            wait(i, "end")
        for i, s in enumerate(mine):
            s.check_unchanged(f"slot {i} changed after its exchange had finished")
        return sync_log, [s.fields for s in mine]

    world = world_from(n_ranks, case["sched"])
    try:
        logs, fields = zip(*world.run(program))
    finally:
        for store in stores.values():
            zarrs.STORES.pop(store.number, None)
    for i, spec in enumerate(case["slots"]):
        if spec["kind"] != "sync":
            continue
        pairs = [fields[r][i] for r in range(n_ranks)]
        for g in range(len(logs[0].get(i, []))):
            before = [logs[r][i][g]["before"] for r in range(n_ranks)]
            want = c06.expected_after_sync(before, pairs, layout, spec["cells"])
            for r in range(n_ranks):
                for c in range(2):
                    got = logs[r][i][g]["after"][c]
                    require(
                        got is not None and same(got, want[r][c]),
                        lambda: f"interface synchronisation {g} of slot {i}: rank {r} "
                        f"{'xy'[c]}-component: "
                        f"{F.first_difference(got, want[r][c])}",
                    )
    ctx.label("send mode", mode)
    ctx.label("policy", case["sched"]["policy"])
    ctx.label("layout", layout)
    ctx.label("max exchanges in flight", n_in_flight[0])
    ctx.label("permuted completion", not same_order)
    return world, n_in_flight[0]
