"""C18: concurrent Zarr writers never lose or mix data."""
from hypothesis import strategies as st

from .. import zarrs
from ..arrays import schedules, seeds
from ..core import require
from ..sim import world_from


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    case = draw(zarrs.grids(tier))
    case.update(
        variables=draw(zarrs.variables(2, ["float64", "float32", "int32", "int64"])),
        n=n, times=draw(zarrs.times(n)),
        order=draw(seeds), sched=draw(schedules()),
    )
    return case


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    import fv3gfs.util as util

    snapshots = zarrs.Snapshots(util, case)
    world = world_from(snapshots.n_ranks, case["sched"])
    store = zarrs.SharedStore(world)

    def program(comm):
        monitor = util.ZarrMonitor(store, snapshots.partitioner, "w", mpi_comm=comm)
        for t in range(case["n"]):
            monitor.store(snapshots.state(t, comm.Get_rank(), case["order"]))
        return True

    try:
        world.run(program)
        shared = zarrs.same_chunk_writers(snapshots, store.log)
        require(not shared, lambda: "chunks written by several ranks that own different "
                f"points: {sorted(shared.items())[:4]}")
        zarrs.verify(snapshots, store, case["n"], f"{snapshots.n_ranks} ranks")
    finally:
        zarrs.STORES.clear()
    ctx.label("switches", 10 ** len(str(world.n_switches)))
    ctx.label("layout", "x".join(map(str, case["layout"])))
    ctx.label("policy", case["sched"]["policy"])
    ctx.nontrivial(case["n"] > 1 and any(len(s["dims"]) > 1 for s in case["variables"]))
