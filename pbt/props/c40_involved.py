"""C40: exchanges wait only for the ranks they involve."""
import cftime
import numpy as np
from hypothesis import strategies as st

from .. import cube, fields as F
from ..arrays import same, schedules, seeds
from ..core import LCG, require
from ..programs import Slot, one_slot
from ..sim import world_from
from . import c06_sync_interfaces as c06

TILE_OPS = ["scatter", "gather", "scatter_state", "gather_state"]


@st.composite
def cases(draw, tier):
    deep = tier == "thorough"
    grid = draw(F.grids(3, 3, (1, 1, 2, 2, 3, 3) if deep else (1, 1, 2, 2, 2, 3)))
    kind = draw(st.sampled_from(["starts", "wait", "wait", "tile"]))
    return {
        "kind": kind, "grid": grid,
        "slots": [] if kind == "tile" else [
            draw(one_slot(grid)) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))],
        "ops": draw(st.lists(st.sampled_from(TILE_OPS), min_size=1, max_size=4))
        if kind == "tile" else [],
        "order": draw(seeds), "focus": draw(st.integers(0, 53)),
        "blocking": draw(st.booleans()),
        # the rank in focus starts after its neighbours
        "late": draw(st.booleans()),
        "sched": draw(schedules(True)),
    }


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    import fv3gfs.util as util

    grid, kind = case["grid"], case["kind"]
    layout, cells = grid["layout"], grid["cells"]
    per_tile = layout * layout
    n_ranks = 6 * per_tile
    with ctx.sut("partitioner"):
        part = util.CubedSpherePartitioner(util.TilePartitioner((layout, layout)))
    sched = dict(case["sched"])
    if kind == "wait" and sched["mode"] == "sync":
        sched["mode"] = "late"  # a rendezvous needs the neighbour's receive as well
    world = world_from(n_ranks, sched)
    focus = case["focus"] % n_ranks
    near = {found[0] for found in (cube.neighbour(focus, layout, b) for b in cube.DIRECTION)
            if found} - {focus}
    order = LCG(case["order"]).shuffled(list(range(n_ranks)))
    turn, started, finished = [0], set(), set()

    def exchanges(comm):
        rank = comm.Get_rank()
        mine = [Slot(util, grid, rank, s) for s in case["slots"]]
        log = {}
        for i, s in enumerate(mine):
            s.prepare(i + 1)
            if s.kind == "sync":
                log[i] = [f.data.copy() for f in s.fields], None
        cube_comm = util.CubedSphereCommunicator(comm, part)

        def call(i, blocking):
            s = mine[i]
            name = {"scalar": "halo_update", "vector": "vector_halo_update",
                    "sync": "synchronize_vector_interfaces"}[s.kind]
            arguments = s.quantities + ([] if s.kind == "sync" else [s.n])
            return getattr(cube_comm, name if blocking else "start_" + name)(*arguments)

        def start():
            for i, s in enumerate(mine):
                s.request = call(i, False)

        def wait():
            for s in mine:
                s.request.wait()

        if kind == "starts":
            world.block(lambda: order[turn[0] % n_ranks] == rank, "waiting for its turn")
            start()
            turn[0] += 1
            wait()
        elif rank == focus:
            if case["late"]:
                world.block(lambda: started >= near, "waiting for its neighbours to start")
            if case["blocking"]:
                for i in range(len(mine)):
                    call(i, True)
            else:
                start()
                wait()
            finished.add(rank)
        else:
            if rank not in near:
                world.block(lambda: finished, f"waiting for rank {focus} to finish")
            start()
            started.add(rank)
            world.block(lambda: finished, f"waiting for rank {focus} to finish")
            wait()
        for i, s in enumerate(mine):
            if s.kind == "sync":
                log[i] = log[i][0], [f.data.copy() for f in s.fields]
            else:
                s.check_halo(s.n, f"exchange {i} ({s.kind})")
        return mine, log

    def tiles(comm):
        rank = comm.Get_rank()
        tile, (j, i) = rank // per_tile, divmod(rank % per_tile, layout)
        cube_comm = util.CubedSphereCommunicator(comm, part)
        cube_comm.tile  # made by all ranks together
        comm.barrier()
        mine = {r for r in range(n_ranks) if r // per_tile == tile}
        turns = LCG(case["order"]).shuffled(list(range(6)))
        earlier = {r for r in range(n_ranks) if r // per_tile in turns[:turns.index(tile)]}
        world.block(lambda: finished >= earlier, "waiting for the tile's turn")
        n = layout * cells
        here = (slice(j * cells, (j + 1) * cells), slice(i * cells, (i + 1) * cells))
        for step, op in enumerate(case["ops"]):
            whole = (np.arange(n * n).reshape(n, n) + 1000 * tile + 7919 * step).astype(float)
            what = f"{op} {step} on tile {tile}"
            time = cftime.DatetimeJulian(2016, 8, 1 + step)
            root = cube_comm.tile.rank == 0
            full, share = (util.Quantity(v.copy(), ["y", "x"], "m")
                           for v in (whole, whole[here]))
            if op == "scatter":
                got, want = cube_comm.tile.scatter(full if root else None), whole[here]
            elif op == "gather":
                got, want = cube_comm.tile.gather(share), whole
            elif op == "scatter_state":
                got = cube_comm.tile.scatter_state({"a": full, "time": time} if root else None)
                require(got["time"] == time, f"{what}: time {got['time']}")
                got, want = got["a"], whole[here]
            else:
                got = cube_comm.tile.gather_state({"a": share, "time": time})
                got, want = got["a"] if root else None, whole
            if op.startswith("gather") and not root:
                continue
            require(same(got.view[:], want), f"{what}: wrong values on rank {rank}")
        finished.add(rank)
        assert rank in mine
        return True

    done = world.run(tiles if kind == "tile" else exchanges)
    require(world.leftovers() == 0, f"{world.leftovers()} messages were never received")
    for i, spec in enumerate(case["slots"]):
        if spec["kind"] == "sync":
            want = c06.expected_after_sync(
                [log[i][0] for _, log in done], [mine[i].fields for mine, _ in done], layout,
                spec["cells"])
            for r in range(n_ranks):
                for c in range(2):
                    require(same(done[r][1][i][1][c], want[r][c]),
                            f"exchange {i} (sync): wrong values of component {c} on rank {r}")
    ctx.label("kind", kind)
    ctx.label("layout", layout)
    ctx.label("send mode", sched["mode"])
    if kind == "wait":
        ctx.label("blocking" if case["blocking"] else "asynchronous")
        ctx.label("ranks not involved", n_ranks - 1 - len(near))
    for spec in case["slots"]:
        ctx.label("exchange", spec["kind"])
    ctx.nontrivial(kind == "starts" or n_ranks > 1 + len(near))
