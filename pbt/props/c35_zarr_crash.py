"""C35: a crash or a failing store never damages snapshots that were stored before."""
import cftime
from hypothesis import strategies as st

from .. import zarrs
from ..arrays import first_difference, same, schedules, seeds
from ..core import LCG, require
from ..sim import SimAbort, world_from


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([2, 2, 3, 4] + ([6] if tier == "thorough" else [])))
    case = draw(zarrs.grids(tier))
    case.update(
        variables=draw(zarrs.variables(2, ["float64", "float32", "int32", "int64", "bool"])),
        n=n, times=draw(zarrs.times(n)), order=draw(seeds), sched=draw(schedules()),
        # when it happens: at one of the accesses to the store that follow the first (or no)
        # snapshot
        after_first=draw(st.sampled_from([True, True, True, False])),
        when=draw(seeds),
        what=draw(st.sampled_from(["crash", "crash", "error", "errors"])),
        # what is done with the store afterwards
        then=draw(st.sampled_from([None, None, "a", "r+", "w-"])),
    )
    return case


def strategy(tier):
    return cases(tier)


class FailingStore(zarrs.SharedStore):
    """Counts accesses and fails at a given one."""

    def __init__(self, world, fails_at, how, on_failure):
        super().__init__(world)
        self.count, self.fails_at, self.how = 0, fails_at, how
        self.on_failure, self.failing_rank = on_failure, None

    def _turn(self):
        me = super()._turn()
        if me is None:
            return me
        self.count += 1
        if self.fails_at is not None and self.count == self.fails_at:
            self.failing_rank = me
            self.on_failure()
            if self.how == "crash":  # nothing happens any more, on any rank
                self.world.failed = "crashed"
                raise SimAbort()
            raise OSError("the store failed (injected)")
        if self.how == "errors" and me == self.failing_rank:
            raise OSError("the store still fails (injected)")
        return me


def verify(snapshots, store, n, what):
    """The first n snapshots are in the store; nothing is said about later ones."""
    import zarr

    if n == 0:
        return
    group = zarr.open_group(store, mode="r")
    for spec in snapshots.variables:
        name = spec["name"]
        require(name in group, f"{what}: {name} is missing")
        array = group[name]
        require(array.shape[0] >= n and array.shape[2:] == snapshots.tile_shape(spec),
                f"{what}: {name} has shape {array.shape}")
        attrs = dict(array.attrs)
        require(attrs.get("_ARRAY_DIMENSIONS") == ["time", "tile"] + list(spec["dims"])
                and attrs.get("units") == spec["units"], f"{what}: {name} has {attrs}")
        data = array[:n]
        for t in range(n):
            for tile in range(6):
                got, want = data[t, tile], snapshots.field(spec, t, tile)
                require(same(got, want),
                        lambda: f"{what}: {name} at time {t}, tile {tile}: "
                        f"{first_difference(got, want)}")
    require("time" in group, f"{what}: time is missing")
    array = group["time"]
    attrs = dict(array.attrs)
    require(array.shape[0] >= n, f"{what}: time has shape {array.shape}")
    require("units" in attrs and "calendar" in attrs, f"{what}: time has {attrs}")
    decoded = cftime.num2date(array[:n], units=attrs["units"], calendar=attrs["calendar"],
                              only_use_cftime_datetimes=True)
    for t in range(n):
        wrong = abs((decoded[t] - snapshots.times[t]).total_seconds())
        require(wrong <= 2e-6, f"{what}: time {t} decodes to {decoded[t]}, stored was "
                f"{snapshots.times[t]}")


def check(case, ctx):
    import fv3gfs.util as util

    snapshots = zarrs.Snapshots(util, case)
    n_ranks = snapshots.n_ranks

    def execute(fails_at, how):
        world = world_from(n_ranks, case["sched"])
        completed, at_failure, marks = [0] * n_ranks, [], []
        store = FailingStore(world, fails_at, how, lambda: at_failure.append(min(completed)))

        def program(comm):
            rank = comm.Get_rank()
            monitor = util.ZarrMonitor(store, snapshots.partitioner, "w", mpi_comm=comm)
            for t in range(case["n"]):
                monitor.store(snapshots.state(t, rank, case["order"]))
                completed[rank] += 1
                if min(completed) == 1 and not marks:
                    marks.append(store.count)
            return True

        if fails_at is None:
            world.run(program)
        else:
            world.run(program, expect_errors=True)
        return store, (at_failure or [case["n"]])[0], marks

    try:
        store, _, marks = execute(None, None)
        first = marks[0] if case["after_first"] else 0
        fails_at = first + 1 + LCG(case["when"]).next(max(1, store.count - first))
        total = store.count
        store, n, _ = execute(fails_at, case["what"])
        where = f"{case['what']} at access {fails_at} of {total}, {n} snapshots complete"
        verify(snapshots, store, n, where)
        if case["then"] and n:
            # somebody starts again with the same store; whether that works or not
            world = world_from(n_ranks, case["sched"])
            store.world, store.how, store.fails_at = world, None, None

            def again(comm):
                monitor = util.ZarrMonitor(
                    store, snapshots.partitioner, case["then"], mpi_comm=comm)
                monitor.store(snapshots.state(case["n"] - 1, comm.Get_rank(), case["order"]))

            world.run(again, expect_errors=True)
            verify(snapshots, store, n, f"{where}, reopened with {case['then']}")
            ctx.label("then", case["then"])
    finally:
        zarrs.STORES.clear()
    ctx.label("what", case["what"])
    ctx.label("complete", n)
    ctx.label("layout", "x".join(map(str, case["layout"])))
    ctx.nontrivial(n > 0 and n_ranks >= 6)
