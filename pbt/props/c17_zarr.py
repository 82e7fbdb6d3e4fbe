"""C17: a Zarr store holds exactly the appended global history."""
from hypothesis import strategies as st

from .. import zarrs
from ..arrays import schedules, seeds
from ..sim import world_from

NEEDS_SCRATCH = True


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 3, 4] + ([7] if tier == "thorough" else [])))
    case = draw(zarrs.grids(tier))
    case.update(
        variables=draw(zarrs.variables(3)),
        n=n, times=draw(zarrs.times(n)),
        run=draw(st.sampled_from(["ranks", "ranks", "ranks", "single"])),
        store=draw(st.sampled_from(["shared", "shared", "shared", "directory", "path"])),
        mode=draw(st.sampled_from(["w", "w", "a", "w-", "x"])),
        earlier=draw(st.booleans()),
        order=draw(seeds), sched=draw(schedules()),
    )
    if case["run"] == "single":
        case["layout"] = [1, 1]
    return case


def strategy(tier):
    return cases(tier)


# more snapshots than fit into one chunk of times
PINNED = [{
    "layout": [1, 1], "cells": [1, 1], "lengths": [1, 1, 1, 1], "n": 1027, "run": "single",
    "variables": [{"name": "x_wind", "dims": ["y"], "axes": [{"origin": 1, "end": 0}],
                   "dtype": "int32", "units": "m", "memory": "C", "vary_halo": False}],
    "times": {"calendar": "noleap", "start": [2016, 1, 1, 0, 0, 0, 0],
              "steps": [900, 1, 86400 * 30]},
    "store": "shared", "mode": "w", "earlier": False, "order": 0, "sched": None,
}]


def check(case, ctx):
    import fv3gfs.util as util
    import zarr

    snapshots = zarrs.Snapshots(util, case)
    single = case["run"] == "single"
    world = None if single else world_from(snapshots.n_ranks, case["sched"])
    store = zarrs.make_store(case["store"], None, ctx.scratch)
    mode = {"x": "w-"}.get(case["mode"], case["mode"])
    try:
        if case["earlier"] and mode == "w":
            # an older store at the same place is replaced
            group = zarr.open_group(store, mode="w")
            group.create_dataset(case["variables"][0]["name"], shape=(9,), dtype="i4")
            group.create_dataset("old", shape=(2,), dtype="i4")[...] = 5
            ctx.label("replaces a store")

        def program(comm):
            rank = 0 if comm is None else comm.Get_rank()
            what = f"rank {rank}"
            with ctx.sut(f"{what}: creating the monitor"):
                if comm is None:
                    monitor = util.ZarrMonitor(store, snapshots.partitioner, mode)
                else:
                    monitor = util.ZarrMonitor(
                        store, snapshots.partitioner, mode, mpi_comm=comm)
            for t in range(case["n"]):
                state = snapshots.state(t, rank, case["order"])
                saved, names = zarrs.copies(state), set(state)
                with ctx.sut(f"{what}: storing snapshot {t}"):
                    result = monitor.store(state)
                assert result is None
                zarrs.unchanged(state, saved, names, f"{what}: snapshot {t}")
            return True

        if single:
            program(None)
            zarrs.verify(snapshots, store, case["n"], "single process", tiles=[0], rank=0)
        else:
            world.run(program)
            zarrs.verify(snapshots, store, case["n"], f"{snapshots.n_ranks} ranks")
    finally:
        zarrs.STORES.clear()
    ctx.label("run", case["run"])
    ctx.label("store", case["store"])
    ctx.label("calendar", snapshots.calendar)
    ctx.label("layout", "x".join(map(str, case["layout"])))
    for spec in case["variables"]:
        ctx.label("dtype", spec["dtype"])
        ctx.label("ndim", len(spec["dims"]))
    ctx.nontrivial(case["n"] > 1 and any(
        any(a["origin"] for a in s["axes"]) for s in case["variables"]))
