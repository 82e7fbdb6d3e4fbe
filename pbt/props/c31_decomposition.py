"""C31: a model program gives the same global results for every decomposition."""
import datetime
import os
import sys

import cftime
import numpy as np
from hypothesis import strategies as st

from .. import devices, zarrs
from ..arrays import MEMORY, X, XI, Y, YI, encode, first_difference, same, schedules
from ..core import LCG, require
from ..fields import Field, STAGGER
from ..sim import world_from

NEEDS_SCRATCH = True

# tile cells -> square layouts that divide it
TILES = {2: [1, 2], 3: [1, 3], 4: [1, 2], 6: [1, 2, 3], 8: [1, 2, 4]}
MODULUS = 8191.0


@st.composite
def cases(draw, tier):
    deep = tier == "thorough"
    n = draw(st.sampled_from([2, 3, 4, 4, 6, 6, 6] + ([8] if deep else [])))
    layouts = TILES[n]
    z = draw(st.sampled_from([None, None, 1, 2]))
    extra = [] if z is None else [
        {"name": "z", "extent": z, "origin": draw(st.integers(0, 1)),
         "pad": draw(st.integers(0, 1))}]
    scalars = [draw(st.booleans()) for _ in range(draw(st.integers(1, 2)))]
    vectors = draw(st.lists(st.sampled_from("CCDAB"), min_size=0, max_size=2))
    coefs = st.lists(st.integers(-3, 3), min_size=6, max_size=6)
    kinds = ["cross", "cross", "box", "box", "nudge", "transpose"]
    if vectors:
        kinds += ["vector", "vector", "vector"]
        if "C" in vectors:
            kinds += ["sync", "sync", "sync"]
    steps = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(kinds),
        "which": st.integers(0, 3),
        "reach": st.integers(1, 3),
        "coef": coefs,
        "direction": st.sampled_from("xy"),
    }), min_size=1, max_size=6))
    # two or three ways of running the same program
    n_runs = 3 if deep else 2
    runs = []
    for k in range(n_runs):
        cuts = draw(st.sampled_from([0, 0, 1, 2]))
        segments = []
        for _ in range(1 + cuts):
            layout = draw(st.sampled_from(layouts if k else layouts[:1] + layouts))
            if segments == [] and k == 1 and runs[0][0]["layout"] == layout:
                layout = [w for w in layouts if w != layout][0]
            segments.append({
                "layout": layout,
                "async": draw(st.booleans()),
                "file": draw(st.sampled_from([False, False, True])),
                "fresh": draw(st.booleans()),
                "padding": draw(st.integers(0, 2 ** 20)),
                "sched": draw(schedules(True)),
            })
        runs.append(segments)
    return {"n": n, "extra": extra, "scalars": scalars, "vectors": vectors, "steps": steps,
            "runs": runs, "zarr": draw(st.booleans()), "seed": draw(st.integers(0, 1000))}


def strategy(tier):
    return cases(tier)


def components(case):
    """[(name, y_interface, x_interface)] of all variables."""
    out = [(f"s{k}", int(i), int(i)) for k, i in enumerate(case["scalars"])]
    for k, letter in enumerate(case["vectors"]):
        (xs, ys) = STAGGER[letter]
        out += [(f"u{k}", *xs), (f"v{k}", *ys)]
    return out


def initial(case, util):
    state = {"time": cftime.DatetimeJulian(2016, 8, 1, case["seed"] % 24)}
    n = case["n"]
    for k, (name, yi, xi) in enumerate(components(case)):
        shape = (6, n + yi, n + xi) + tuple(e["extent"] for e in case["extra"])
        ids = np.arange(int(np.prod(shape))).reshape(shape)
        values = np.mod(encode(ids * 31 + 7 * k + case["seed"], "float64", special=False), MODULUS)
        dims = ["tile", YI if yi else Y, XI if xi else X] + [e["name"] for e in case["extra"]]
        state[name] = util.Quantity(values, dims=dims, units="m/s")
    return state


def random_spec(rng, need, extra):
    """As fields.layouts_in_memory, expanded from a number."""
    order = rng.shuffled(range(2 + len(extra)))
    return {"order": order,
            "start": [need + rng.next(3), need + rng.next(3)],
            "end": [need + rng.next(3), need + rng.next(3)],
            "memory": MEMORY[rng.next(len(MEMORY))]}


def local_quantity(util, field, backend):
    """Quantity on a rank; whatever holds it, the model computes on field.data."""
    if backend == "numpy":
        return field.quantity(util)
    if backend == "cupy":
        data = devices.wrap(field.data)
    else:
        import gt4py

        data = gt4py.storage.empty(
            backend[3:], field.origin, field.shape, field.dtype, managed_memory=True)
        data[...] = field.data
        field.data = devices.host(data)
    return util.Quantity(data, dims=tuple(field.dims), units="m/s", origin=field.origin,
                         extent=field.extent)


def global_state(util, state, backend):
    """A state of arrays of the host, as a root with this backend holds it."""
    out = {}
    for name, q in state.items():
        if name == "time" or backend == "numpy":
            out[name] = q
        else:
            values = np.array(q.view[:])
            data = devices.wrap(values) if backend == "cupy" else values
            out[name] = util.Quantity(
                data, dims=q.dims, units=q.units,
                gt4py_backend=backend[3:] if backend.startswith("gt:") else None)
    return out


def host_state(util, state, backend, what):
    """A gathered state as arrays of the host; it must be of the kind that was sent."""
    if backend == "numpy":
        return state
    out = {}
    for name, q in state.items():
        if name == "time":
            out[name] = q
            continue
        check_kind(q, backend, f"{what}: {name}")
        out[name] = util.Quantity(
            np.array(devices.host(q.view[:])), dims=q.dims, units=q.units)
    return out


def check_kind(quantity, backend, what):
    """The data are of the backend's array type and the backend is not lost."""
    require(type(quantity.data) is devices.array_type(backend),
            f"{what}: data of type {type(quantity.data)} for backend {backend}")
    module = "cupy" if devices.array_type(backend) is devices.ndarray else "numpy"
    require(quantity.np is sys.modules[module], f"{what}: np is {quantity.np}")
    wanted = backend[3:] if backend.startswith("gt:") else None
    require(quantity.gt4py_backend == wanted,
            f"{what}: backend {quantity.gt4py_backend!r} instead of {wanted!r}")
    if wanted is not None:
        require(np.shares_memory(devices.host(quantity.storage), devices.host(quantity.data))
                and quantity.storage.shape == quantity.data.shape,
                f"{what}: storage and data are different memory")
        require(tuple(quantity.storage.default_origin) == tuple(quantity.origin),
                f"{what}: origin {quantity.origin}, but the default origin of the storage is "
                f"{quantity.storage.default_origin}")


class Rank:
    """The model on one rank: user code that computes on the arrays it owns."""

    def __init__(self, util, case, segment, comm):
        self.util, self.case, self.segment = util, case, segment
        layout = segment["layout"]
        self.backend = segment.get("backend", "numpy")
        self.part = util.CubedSpherePartitioner(util.TilePartitioner((layout, layout)))
        self.comm = util.CubedSphereCommunicator(comm, self.part)
        self.rank = comm.Get_rank()
        self.cells = case["n"] // layout
        grid = {"layout": layout, "cells": self.cells}
        rng = LCG(segment["padding"])
        halo = min(3, self.most(case))
        self.fields, self.quantities = {}, {}
        spec = None
        for name, yi, xi in components(case):
            new = random_spec(rng, halo, case["extra"])
            if name[0] == "v":
                new["order"] = spec["order"]
            spec = new
            f = Field(grid, self.rank, spec, case["extra"], yi, xi, "float64")
            f.scramble(3)
            self.fields[name], self.quantities[name] = f, local_quantity(
                util, f, self.backend)

    @staticmethod
    def most(case):
        """Widest halo every decomposition of this case allows."""
        return min(case["n"] // s["layout"] for run in case["runs"] for s in run)

    def window(self, name, halo):
        f = self.fields[name]
        return f.canonical()[f.window(halo)]

    def canonical(self):
        """The same memory in the order of dims that global data have."""
        util = self.util
        others = [e["name"] for e in self.case["extra"]]
        return {name: q.transpose([util.Y_DIMS, util.X_DIMS] + others)
                for name, q in self.quantities.items()}

    def write_back(self, name, reordered):
        """What happened to a reordered quantity, where reordering had to copy."""
        q = self.quantities[name]
        if self.backend.startswith("gt:"):
            self.fields[name].data[...] = devices.host(
                reordered.transpose(list(q.dims)).data)

    def reach(self, step):
        return 1 + (step["reach"] - 1) % self.most(self.case)

    def store(self, name, values):
        self.window(name, 0)[...] = np.mod(values, MODULUS)

    def cross(self, name, reach, coef):
        """Points to the four sides, none of them beyond a corner."""
        wide = self.window(name, reach)
        ny, nx = self.window(name, 0).shape[:2]
        out = coef[0] * wide[reach:reach + ny, reach:reach + nx]
        for k in range(1, reach + 1):
            out = out + (coef[1] + k) * wide[reach + k:reach + k + ny, reach:reach + nx]
            out = out + coef[2] * k * wide[reach - k:reach - k + ny, reach:reach + nx]
            out = out + (coef[3] - k) * wide[reach:reach + ny, reach + k:reach + k + nx]
            out = out + (coef[4] + 2 * k) * wide[reach:reach + ny, reach - k:reach - k + nx]
        return out

    def box(self, name, reach, coef):
        wide = self.window(name, reach)
        ny, nx = self.window(name, 0).shape[:2]
        out = 0.0
        for j in range(-reach, reach + 1):
            for i in range(-reach, reach + 1):
                weight = coef[(j + 2 * i) % 5] + j - 2 * i
                out = out + weight * wide[reach + j:reach + j + ny, reach + i:reach + i + nx]
        return out

    def step(self, k, step):
        case, util, comm = self.case, self.util, self.comm
        op, reach = step["op"], self.reach(step)
        late = self.segment["async"]
        if op in ("cross", "box"):
            name = f"s{step['which'] % len(case['scalars'])}"
            quantity = self.quantities[name]
            if late:
                request = comm.start_halo_update(quantity, reach)
                request.wait()
            else:
                comm.halo_update(quantity, reach)
            if op == "cross":
                self.store(name, self.cross(name, reach, step["coef"]))
            else:
                # the corner filling works on data in x, y order
                others = [d for d in quantity.dims if d not in util.HORIZONTAL_DIMS]
                ordered = quantity.transpose([util.X_DIMS, util.Y_DIMS] + others)
                util.fill_scalar_corners(
                    ordered, step["direction"], self.part.tile, self.rank, reach)
                self.write_back(name, ordered)
                self.store(name, self.box(name, reach, step["coef"]))
        elif op == "vector":
            v = step["which"] % len(case["vectors"])
            x, y = self.quantities[f"u{v}"], self.quantities[f"v{v}"]
            if late:
                # overlapped with the halo update of a scalar
                first = comm.start_vector_halo_update(x, y, reach)
                other = comm.start_halo_update(self.quantities["s0"], reach)
                first.wait()
                other.wait()
            else:
                comm.halo_update(self.quantities["s0"], reach)
                comm.vector_halo_update(x, y, reach)
            new = [self.cross(f"u{v}", reach, step["coef"]),
                   self.cross(f"v{v}", reach, step["coef"][::-1])]
            self.store(f"u{v}", new[0])
            self.store(f"v{v}", new[1])
        elif op == "sync":
            cs = [v for v, letter in enumerate(case["vectors"]) if letter == "C"]
            v = cs[step["which"] % len(cs)]
            x, y = self.quantities[f"u{v}"], self.quantities[f"v{v}"]
            if late:
                comm.start_synchronize_vector_interfaces(x, y).wait()
            else:
                comm.synchronize_vector_interfaces(x, y)
        elif op == "nudge":
            name = f"s{step['which'] % len(case['scalars'])}"
            reference = {name: util.Quantity(
                self.quantities[name].view[:] * 2.0 + step["coef"][0],
                dims=self.quantities[name].dims, units="m/s")}
            state = {n: q for n, q in self.quantities.items() if n[0] == "s"}
            util.apply_nudging(
                state, reference, {name: datetime.timedelta(seconds=4 * step["reach"])},
                datetime.timedelta(seconds=2))
            self.store(name, np.array(self.window(name, 0)))
        elif op == "transpose":
            # continue with another order of dims of the same memory
            name = sorted(self.quantities)[step["which"] % len(self.quantities)]
            q = self.quantities[name]
            back = q.transpose(list(q.dims)[::-1]).transpose(list(q.dims))
            back.view[:] = np.mod(back.view[:] * 3.0 + step["coef"][1], MODULUS)
            self.write_back(name, back)
            if not self.backend.startswith("gt:"):
                self.quantities[name] = back


def run(case, ctx, util, segments, store, what):
    state = initial(case, util)
    steps = case["steps"]
    for s, segment in enumerate(segments):
        first, last = (len(steps) * k // len(segments) for k in (s, s + 1))
        n_ranks = 6 * segment["layout"] ** 2
        backend = segment.get("backend", "numpy")
        to_zarr = case["zarr"] and s == len(segments) - 1
        sent = global_state(util, state, backend)
        where = f"{what}, segment {s} (layout {segment['layout']}, {backend})"

        def program(comm):
            model = Rank(util, case, segment, comm)
            mine = None if segment.get("fresh") else model.canonical()
            got = model.comm.scatter_state(sent if model.rank == 0 else None, mine)
            require(got["time"] == state["time"], f"{where}: time {got['time']}")
            for name, f in model.fields.items():
                if backend != "numpy":
                    check_kind(got[name], backend, f"{where}: scattered {name}")
                if mine is None:
                    q = got[name].transpose(model.quantities[name].dims)
                    f.canonical()[f.window(0)] = f.canonical(devices.host(q.view[:]))
                else:
                    model.write_back(name, got[name])
            for k in range(first, last):
                model.step(k, steps[k])
            out = model.canonical()
            if to_zarr:
                monitor = util.ZarrMonitor(store, model.part, "w", mpi_comm=comm)
                # what zarr makes of device arrays depends on its version
                stored = host_state(util, out, backend, where)
                for t in range(2):
                    later = got["time"] + datetime.timedelta(hours=t)
                    monitor.store(dict(stored, time=later))
            return model.comm.gather_state(dict(out, time=got["time"]))

        world = world_from(n_ranks, segment["sched"])
        with ctx.sut(where):
            results = world.run(program)
        require(all(r is None for r in results[1:]), f"{where}: a result away from the root")
        require(world.leftovers() == 0, f"{where}: messages were never received")
        state = host_state(util, results[0], backend, f"{where}: gathered")
        if segment["file"]:
            path = os.path.join(ctx.scratch, f"state{s}.nc")
            with ctx.sut(f"{where}: state written and read between segments"):
                util.write_state(state, path)
                state = util.read_state(path)
    return state


def compare_stores(case, outcomes, stores):
    import zarr

    groups = [zarr.open_group(s, mode="r") for s in stores]
    for (what, state), group in zip(outcomes, groups):
        require(set(group.array_keys()) == {n for n, _, _ in components(case)} | {"time"},
                f"{what}: arrays in the store {sorted(group.array_keys())}")
        for name, yi, xi in components(case):
            got, want = group[name][...], state[name].view[:]
            for t in range(2):
                # of a point shared by two ranks, both hold the same value
                require(same(np.ascontiguousarray(got[t]), np.ascontiguousarray(want)),
                        lambda: f"{what}: {name} at time {t} in the store: "
                        f"{first_difference(got[t], want)}")


def check(case, ctx):
    import fv3gfs.util as util

    outcomes, stores = [], []
    try:
        for segments in case["runs"]:
            what = "layouts " + " then ".join(str(s["layout"]) for s in segments)
            stores.append(zarrs.SharedStore() if case["zarr"] else None)
            outcomes.append((what, run(case, ctx, util, segments, stores[-1], what)))
        if case["zarr"]:
            compare_stores(case, outcomes, stores)
    finally:
        zarrs.STORES.clear()
    what0, first = outcomes[0]
    for what, other in outcomes[1:]:
        require(set(first) == set(other), f"{what}: names {sorted(other)}")
        require(first["time"] == other["time"], f"{what}: time {other['time']}")
        for name, yi, xi in components(case):
            arrays = []
            for label, state in ((what0, first), (what, other)):
                q = state[name]
                require(q.units == "m/s", f"{label}: units {q.units!r} of {name}")
                dims = ("tile", YI if yi else Y, XI if xi else X) + tuple(
                    e["name"] for e in case["extra"])
                require(tuple(q.dims) == dims, f"{label}: dims {q.dims} of {name}")
                arrays.append(np.array(q.view[:]))
            require(same(arrays[0], arrays[1]),
                    lambda: f"{name} depends on the decomposition ({what} against {what0}): "
                    f"{first_difference(arrays[1], arrays[0])}")
    ctx.nontrivial(any(s["op"] in ("cross", "box", "vector", "sync") for s in case["steps"]))
    for s in case["steps"]:
        ctx.label("step", s["op"])
    for segments in case["runs"]:
        for segment in segments:
            ctx.label("backend", segment.get("backend", "numpy"))
    ctx.label("zarr", case["zarr"])
    ctx.label("segments", max(len(r) for r in case["runs"]))
    ctx.label("layouts", max(s["layout"] for r in case["runs"] for s in r))
    ctx.label("most reach", max(1 + (s["reach"] - 1) % Rank.most(case) for s in case["steps"]))
