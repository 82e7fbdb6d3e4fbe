"""C19: inconsistent snapshots are rejected by the Zarr monitor."""
import numpy as np
from hypothesis import strategies as st

from .. import zarrs
from ..arrays import X_DIMS, Y_DIMS, encode, schedules, seeds
from ..core import require
from ..sim import world_from

BAD = ["extra", "missing", "renamed", "no_time", "units", "dim_name", "dim_order", "length",
       "calendar", "ndim"]


@st.composite
def cases(draw, tier):
    case = draw(zarrs.grids(tier))
    ops = draw(st.lists(
        st.fixed_dictionaries({
            "bad": st.sampled_from([None] * 8 + BAD), "pick": st.integers(0, 5),
            "seed": seeds}),
        min_size=1, max_size=12 if tier == "thorough" else 7))
    n = 1 + sum(op["bad"] is None for op in ops)
    case.update(
        variables=draw(zarrs.variables(3)), n=n, times=draw(zarrs.times(n)), ops=ops,
        run=draw(st.sampled_from(["single", "single", "ranks"])),
        store=draw(st.sampled_from(["shared", "shared", "shared", "directory"])),
        order=draw(seeds), sched=draw(schedules()),
    )
    if case["run"] == "single":
        case["layout"] = [1, 1]
    return case


def strategy(tier):
    return cases(tier)


NEEDS_SCRATCH = True


def spoil(snapshots, util, state, op, t):
    """The same state with one inconsistency, or None if it does not apply."""
    kind = op["bad"]
    specs = snapshots.variables
    spec = specs[op["pick"] % len(specs)]
    name, q = spec["name"], state[spec["name"]]
    dims, data = list(q.dims), q.data
    state = dict(state)

    def replace(dims=None, units=None, data=None, extent=None):
        return util.Quantity(
            q.data if data is None else data, dims=q.dims if dims is None else dims,
            units=q.units if units is None else units, origin=q.origin[:len(dims or q.dims)],
            extent=q.extent if extent is None else extent)

    if kind == "extra":
        state["another"] = q
    elif kind == "missing":
        del state[name]
    elif kind == "renamed":
        state[name + "_"] = state.pop(name)
    elif kind == "no_time":
        del state["time"]
    elif kind == "units":
        state[name] = replace(units=["Pa", "mm", "1/s"][op["seed"] % 3])
    elif kind == "dim_name":
        if not dims:
            return None
        k = op["seed"] % len(dims)
        dims[k] = "renamed_dim" if dims[k] not in X_DIMS + Y_DIMS else dims[k]
        if dims == list(q.dims):
            return None
        state[name] = replace(dims=dims)
    elif kind == "dim_order":
        if len(dims) < 2:
            return None
        state[name] = q.transpose(dims[1:] + dims[:1])
    elif kind == "length":
        rest = [k for k, d in enumerate(dims) if d not in X_DIMS + Y_DIMS]
        # a different resolution changes the horizontal extents
        k = rest[op["seed"] % len(rest)] if rest else None
        if k is None:
            rest = [k for k, d in enumerate(dims)]
            if not rest:
                return None
            k = rest[op["seed"] % len(rest)]
        extent = list(q.extent)
        extent[k] += 1 if op["seed"] % 2 or extent[k] <= 1 else -1
        if dims[k].endswith("_interface") and extent[k] < 2:
            extent[k] = q.extent[k] + 1
        data = encode(np.arange(int(np.prod(extent))).reshape(extent) + 7, q.data.dtype)
        state[name] = util.Quantity(data, dims=dims, units=q.units)
    elif kind == "ndim":
        data = encode(np.arange(2 * int(np.prod(q.extent, dtype=int))).reshape(
            (2,) + tuple(q.extent)), q.data.dtype)
        state[name] = util.Quantity(data, dims=["ensemble"] + dims, units=q.units)
    elif kind == "calendar":
        classes = sorted(zarrs.CALENDARS)
        cls = next(
            zarrs.CALENDARS[c] for c in classes[op["seed"] % len(classes):] + classes
            if zarrs.CALENDARS[c](2000, 1, 1).calendar != snapshots.calendar)
        time = snapshots.times[t]
        year = time.year + (time.year == 1582)  # some days are missing from that year
        state["time"] = cls(year, time.month, min(time.day, 28), time.hour)
    return state


def check(case, ctx):
    import fv3gfs.util as util

    snapshots = zarrs.Snapshots(util, case)
    single = case["run"] == "single"
    store = zarrs.make_store(case["store"], None, ctx.scratch)
    ops = case["ops"]
    if not single:
        # a root that rejects leaves the others waiting: nothing may follow
        first = next((k for k, op in enumerate(ops) if op["bad"]), len(ops))
        ops = ops[:first + 1]
    try:
        if single:
            play(case, ctx, util, snapshots, store, ops)
        else:
            play_ranks(case, ctx, util, snapshots, store, ops)
    finally:
        zarrs.STORES.clear()
    ctx.label("run", case["run"])


def play(case, ctx, util, snapshots, store, ops):
    with ctx.sut("creating the monitor"):
        monitor = util.ZarrMonitor(store, snapshots.partitioner, "w")
    with ctx.sut("storing the first snapshot"):
        monitor.store(snapshots.state(0, 0, case["order"]))
    t = 1
    rejected = False
    for step, op in enumerate(ops):
        what = f"op {step}"
        if op["bad"] is None:
            state = snapshots.state(t, 0, case["order"])
            with ctx.sut(f"{what}: storing a consistent snapshot"):
                monitor.store(state)
            t += 1
            if rejected:
                ctx.label("stored after a rejection")
                ctx.nontrivial()
        else:
            state = spoil(
                snapshots, util, snapshots.state(min(t, case["n"] - 1), 0, case["order"]),
                op, min(t, case["n"] - 1))
            if state is None:
                continue
            what += f": inconsistent snapshot ({op['bad']})"
            saved, names = zarrs.copies(state), set(state)
            ctx.raises(Exception, lambda: monitor.store(state), what)
            zarrs.unchanged(state, saved, names, what)
            rejected = True
            ctx.label(op["bad"])
        zarrs.verify(snapshots, store, t, f"after {what}", tiles=[0], rank=0)


def play_ranks(case, ctx, util, snapshots, store, ops):
    world = world_from(snapshots.n_ranks, case["sched"])

    def program(comm):
        rank = comm.Get_rank()
        monitor = util.ZarrMonitor(store, snapshots.partitioner, "w", mpi_comm=comm)
        monitor.store(snapshots.state(0, rank, case["order"]))
        t = 1
        for op in ops:
            if op["bad"] is None:
                monitor.store(snapshots.state(t, rank, case["order"]))
                t += 1
                continue
            k = min(t, case["n"] - 1)
            # all ranks must agree on the inconsistency
            state = spoil(snapshots, util, snapshots.state(k, rank, case["order"]), op, k)
            if state is None:
                return "inapplicable", t
            comm.barrier()
            try:
                monitor.store(state)
            except Exception as err:  # noqa: BLE001
                return "rejected " + type(err).__name__, t
            return "accepted", t
        return "consistent", t

    results, errors = world.run(program, expect_errors=True)
    for rank, err in enumerate(errors):
        if err is not None:
            raise err
    root = results[0]
    require(root is not None, f"root: {world.failed}")
    require(root[0] != "accepted", f"the root accepted an inconsistent state: {ops[-1]}")
    if not root[0].startswith("rejected"):
        require(world.failed is None, world.failed)
        require(all(r == root for r in results), f"results differ: {results}")
    else:
        ctx.label(ops[-1]["bad"])
        ctx.nontrivial()
        accepted = [k for k, r in enumerate(results) if r is not None and r[0] == "accepted"]
        require(not accepted, f"{ops[-1]}: ranks {accepted} accepted an inconsistent state")
    zarrs.verify(snapshots, store, root[1], f"after {root[0]}")
