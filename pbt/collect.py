"""Scatters and gathers of single fields and of states, on a tile and on the cube."""
import numpy as np
from hypothesis import strategies as st

from .arrays import (INTERFACE, MEMORY, TILE, X_DIMS, Y_DIMS, agree, allocate, encode,
                     first_difference, rarely_large, same, schedules)
from .core import LCG, fail, require
from .fields import SCALAR_DTYPES

OTHER = ["z", "z_interface", "z_soil", "tracer", "years", "x_wind"]
UNITS = ["m", "m/s", "kg", "", "K m**2"]


@st.composite
def fields(draw, max_other=2, horizontal=("yx", "yx", "yx", "xy", "y", "x", "")):
    names = draw(st.sampled_from(horizontal))
    dims = [draw(st.sampled_from(X_DIMS if h == "x" else Y_DIMS)) for h in names]
    others = draw(st.permutations(OTHER))[: draw(st.integers(0, max_other))]
    for o in others:
        dims.insert(draw(st.integers(0, len(dims))), o)
    return {
        "dims": dims,
        "others": rarely_large(
            draw, [draw(st.sampled_from([0] + [1, 2, 3] * 5)) for _ in range(4)], 12),
        "dtype": draw(st.sampled_from(SCALAR_DTYPES)),
        "units": draw(st.sampled_from(UNITS)),
        # fields of several resolutions may share a communicator
        "cells": draw(st.sampled_from([None, None, None, [1, 1], [2, 1], [3, 2], [2, 4]])),
    }


@st.composite
def holders(draw, n_axes=5):
    """How one side holds its array."""
    return {
        "start": [draw(st.integers(0, 2)) for _ in range(n_axes)],
        "end": [draw(st.integers(0, 2)) for _ in range(n_axes)],
        "memory": draw(st.sampled_from(MEMORY)),
    }


@st.composite
def grids(draw, deep):
    kind = draw(st.sampled_from(["tile", "tile", "cube", "cube_tile"]))
    top = 4 if deep else 3
    if kind == "tile":
        layout = [draw(st.integers(1, top)), draw(st.integers(1, top))]
    else:
        n = draw(st.sampled_from([1, 1, 2, 3] if deep else [1, 1, 1, 2]))
        layout = [n, n]
    return {
        "kind": kind,
        "layout": layout,
        "cells": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
    }


class Setup:
    """Partitioner and communicators of a grid, and brute-force index arithmetic."""

    def __init__(self, util, grid):
        self.util, self.grid = util, grid
        self.kind = grid["kind"]
        self.layout, self.cells = tuple(grid["layout"]), tuple(grid["cells"])
        self.per_tile = self.layout[0] * self.layout[1]
        self.tile_part = util.TilePartitioner(self.layout)
        self.cube_part = util.CubedSpherePartitioner(self.tile_part)
        self.n_world = self.per_tile * (1 if self.kind == "tile" else 6)
        self.is_cube = self.kind == "cube"
        # number of ranks taking part in one collective
        self.n_ranks = self.per_tile * (6 if self.is_cube else 1)

    def communicator(self, comm):
        if self.kind == "tile":
            return self.util.TileCommunicator(comm, self.tile_part)
        cube = self.util.CubedSphereCommunicator(comm, self.cube_part)
        return cube if self.is_cube else cube.tile

    def local_rank(self, world_rank):
        return world_rank % self.n_ranks

    def group(self, world_rank):
        return world_rank // self.n_ranks

    def extents(self, field):
        """(extent of one rank, extent of the tile), without the tile dimension."""
        own, full = [], []
        cells = field["cells"] or self.cells
        k = 0
        for dim in field["dims"]:
            extra = 1 if dim in INTERFACE else 0
            if dim in Y_DIMS or dim in X_DIMS:
                a = 0 if dim in Y_DIMS else 1
                own.append(cells[a] + extra)
                full.append(cells[a] * self.layout[a] + extra)
            else:
                own.append(field["others"][k] + extra)
                full.append(field["others"][k] + extra)
                k += 1
        return tuple(own), tuple(full)

    def global_shape(self, field):
        return ((6,) if self.is_cube else ()) + self.extents(field)[1]

    def global_dims(self, field):
        return ([TILE] if self.is_cube else []) + list(field["dims"])

    def part(self, field, rank):
        """Index of a rank's (overlapping) share in the global array."""
        own, _ = self.extents(field)
        cells = field["cells"] or self.cells
        tile, within = divmod(rank, self.per_tile)
        pos = divmod(within, self.layout[1])
        index = []
        for dim, size in zip(field["dims"], own):
            start = 0
            if dim in Y_DIMS:
                start = pos[0] * cells[0]
            elif dim in X_DIMS:
                start = pos[1] * cells[1]
            index.append(slice(start, start + size))
        return ((tile,) if self.is_cube else ()) + tuple(index)


class Held:
    """An array with halo and padding in which a compute domain is embedded."""

    def __init__(self, util, dims, extent, dtype, units, holder, salt=0):
        self.extent, self.dims = tuple(extent), tuple(dims)
        n = len(extent)
        start = [holder["start"][k % 5] for k in range(n)]
        end = [holder["end"][k % 5] for k in range(n)]
        self.origin = tuple(start)
        shape = [s + e + t for s, e, t in zip(start, extent, end)]
        self.data = allocate(shape, np.dtype(dtype), holder["memory"])
        ids = np.arange(int(np.prod(shape))).reshape(shape) * 3 + salt * 7919 + 5
        junk = encode(ids, dtype)
        self.data[...] = -junk if self.data.dtype.kind in "fic" else ~junk
        self.quantity = util.Quantity(
            self.data, dims=self.dims, units=units, origin=self.origin, extent=self.extent)
        self.index = tuple(slice(s, s + e) for s, e in zip(start, extent))
        self.snap()

    def snap(self):
        self.saved = self.data.copy()

    def put(self, values):
        self.data[self.index] = values
        self.snap()

    def require_only_compute(self, values, what):
        want = self.saved.copy()
        want[self.index] = values
        require(same(self.data, want),
                lambda: f"{what}: {first_difference(self.data, want)} "
                f"(origin {self.origin}, extent {self.extent})")
        self.snap()

    def require_unchanged(self, what):
        require(same(self.data, self.saved),
                lambda: f"{what}: {first_difference(self.data, self.saved)}")


def global_values(setup, field, salt):
    shape = setup.global_shape(field)
    ids = np.arange(int(np.prod(shape))).reshape(shape) + salt * 100003
    return encode(ids, field["dtype"])


def rank_values(setup, field, world_rank, salt):
    """Values that differ between ranks also on shared points."""
    own, _ = setup.extents(field)
    n = int(np.prod(own))
    ids = np.arange(n).reshape(own) + (world_rank * 7 + 1) * n + salt * 100003
    return encode(ids, field["dtype"])


def check_received(held, quantity, given, dims, extent, dtype, units, values, what):
    """The quantity returned on a rank, pre-allocated (held) or new."""
    require(quantity is not None, f"{what}: no quantity returned")
    if given:
        require(quantity is held.quantity, f"{what}: another quantity was returned")
        held.require_only_compute(values, what)
        return
    require(tuple(quantity.dims) == tuple(dims), f"{what}: dims {quantity.dims}")
    require(quantity.units == units, f"{what}: units {quantity.units!r}, sent {units!r}")
    require(tuple(quantity.extent) == tuple(extent),
            f"{what}: extent {quantity.extent}, expected {extent}")
    require(quantity.data.dtype == np.dtype(dtype) == np.dtype(quantity.metadata.dtype),
            f"{what}: dtype {quantity.data.dtype}")
    got = quantity.view[:]
    require(same(got, values), lambda: f"{what}: {first_difference(got, values)}")


@st.composite
def histories(draw, tier, kinds):
    deep = tier == "thorough"
    grid = draw(grids(deep))
    n_fields = draw(st.integers(1, 3))
    specs = [
        {
            "field": draw(fields()),
            "root": draw(holders()),
            "rank": draw(holders()),
            "vary": draw(st.booleans()),
        }
        for _ in range(n_fields)
    ]
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(kinds),
            "field": st.integers(0, 2),
            # which ranks pass a pre-allocated quantity: none, all, or a mixture
            "given": st.sampled_from(["none", "all", "mixed"]),
            "root_given": st.booleans(),
            "by_keyword": st.booleans(),
            "stray": st.booleans(),
        }
    )
    return {
        "grid": grid,
        "specs": specs,
        "ops": draw(st.lists(op, min_size=1, max_size=6 if deep else 4)),
        "sched": draw(schedules(True)),
    }


def run_history(case, ctx):
    import fv3gfs.util as util

    from .sim import world_from

    with ctx.sut("partitioner"):
        setup = Setup(util, case["grid"])

    def holder_of(spec, world_rank):
        h = spec["rank"]
        if spec["vary"]:
            r = LCG(world_rank * 31 + 1)
            h = {"start": [r.next(3) for _ in range(5)], "end": [r.next(3) for _ in range(5)],
                 "memory": MEMORY[r.next(len(MEMORY))]}
        return h

    def program(comm):
        world_rank = comm.Get_rank()
        rank, group = setup.local_rank(world_rank), setup.group(world_rank)
        communicator = setup.communicator(comm)
        require(communicator.rank == rank, f"rank is {communicator.rank}, not {rank}")
        is_root = rank == 0
        kept = []  # (quantity, copy of the data, description)
        # arrays live as long as the program: repeated operations use them again
        mine = []
        for k, spec in enumerate(case["specs"]):
            f = spec["field"]
            own, _ = setup.extents(f)
            gshape, gdims = setup.global_shape(f), setup.global_dims(f)
            make = lambda dims, ext, h, salt: Held(  # noqa: E731
                util, dims, ext, f["dtype"], f["units"], h, salt)
            h = holder_of(spec, world_rank)
            mine.append({
                "src": make(f["dims"], own, h, 10 * k + world_rank),
                "dst": make(f["dims"], own, dict(h, start=h["end"], end=h["start"]),
                            10 * k + 5 + world_rank),
                "root_src": make(gdims, gshape, spec["root"], 77 + k) if is_root else None,
                "root_dst": make(gdims, gshape, dict(
                    spec["root"], start=spec["root"]["end"]), 99 + k) if is_root else None,
            })

        def everything_unchanged(what):
            for m in mine:
                for held in m.values():
                    if held is not None:
                        held.require_unchanged(what)
            for quantity, data, where in kept:
                require(same(quantity.data, data),
                        f"{what}: the result of {where} has changed")

        def scatter(step, op, spec, m, salt):
            f = spec["field"]
            values = global_values(setup, f, salt + 17 * group)
            if is_root:
                m["root_src"].put(values)
            given = {"none": False, "all": True,
                     "mixed": (rank * 5 + step) % 2 == 0}[op["given"]]
            send = m["root_src"].quantity if is_root else None
            if not is_root and op["stray"]:
                send = m["src"].quantity  # ignored away from the root
            recv = m["dst"].quantity if given else None
            if op["by_keyword"]:
                got = communicator.scatter(send_quantity=send, recv_quantity=recv)
            else:
                got = communicator.scatter(send, recv)
            what = f"op {step}: scatter of {f['dims']} on rank {rank}"
            check_received(
                m["dst"], got, given, f["dims"], setup.extents(f)[0], f["dtype"], f["units"],
                values[setup.part(f, rank)], what)
            if not given:
                kept.append((got, got.data.copy(), what))
            return got

        def gather(step, op, spec, m, source, contributions, what, given):
            f = spec["field"]
            recv = m["root_dst"].quantity if is_root and given else None
            if not is_root and op["stray"]:
                recv = m["dst"].quantity  # ignored away from the root
            if op["by_keyword"]:
                got = communicator.gather(send_quantity=source, recv_quantity=recv)
            else:
                got = communicator.gather(source, recv)
            if not is_root:
                require(got is None, f"{what}: rank {rank} received {got}")
                return
            shape = setup.global_shape(f)
            target = got.view[:] if not given else m["root_dst"].data[m["root_dst"].index]
            require(tuple(target.shape) == shape, f"{what}: shape {target.shape}")
            matched = np.zeros(shape, bool)
            for r in range(setup.n_ranks):
                index = setup.part(f, r)
                matched[index] |= agree(target[index], contributions(r))
            where = np.argwhere(~matched)
            require(len(where) == 0,
                    lambda: f"{what}: {len(where)} points hold no owner's value, first "
                    f"{tuple(where[0])}: {target[tuple(where[0])]}")
            check_received(
                m["root_dst"], got, given, setup.global_dims(f), shape, f["dtype"],
                f["units"], target.copy(), what)
            if not given:
                kept.append((got, got.data.copy(), what))
            return got

        for step, op in enumerate(case["ops"]):
            k = op["field"] % len(case["specs"])
            spec, m, salt = case["specs"][k], mine[k], step + 1
            f = spec["field"]
            if op["op"] == "scatter":
                scatter(step, op, spec, m, salt)
            elif op["op"] == "gather":
                m["src"].put(rank_values(setup, f, world_rank, salt))
                gather(step, op, spec, m, m["src"].quantity,
                       lambda r: rank_values(
                           setup, f, r + group * setup.n_ranks, salt),
                       f"op {step}: gather of {f['dims']}", op["root_given"])
            elif op["op"] == "round_trip":
                part = scatter(step, op, spec, m, salt)
                values = global_values(setup, f, salt + 17 * group)
                gather(step, op, spec, m, part, lambda r: values[setup.part(f, r)],
                       f"op {step}: gather of a scattered {f['dims']}", op["root_given"])
            elif op["op"] == "new_communicator":
                communicator = setup.communicator(comm)
            elif op["op"] == "no_send":
                # the root forgets its argument; nobody else takes part yet
                if is_root:
                    try:
                        communicator.scatter()
                    except TypeError:
                        pass
                    else:
                        fail("scatter without a quantity on the root was accepted")
            everything_unchanged(f"op {step} ({op['op']}) on rank {rank}")
        return True

    world = world_from(setup.n_world, case["sched"])
    done = world.run(program)
    require(all(done), "not every rank finished")
    require(world.leftovers() == 0, "messages were never received")
    ctx.label("grid", setup.kind)
    ctx.label("layout", "x".join(map(str, setup.layout)))
    for op in case["ops"]:
        ctx.label("op", op["op"])
    # interface dims make shares overlap, several ranks make parts differ
    ctx.nontrivial(setup.n_ranks > 1 and any(
        any(d in X_DIMS + Y_DIMS for d in s["field"]["dims"]) for s in case["specs"]))
    return setup
