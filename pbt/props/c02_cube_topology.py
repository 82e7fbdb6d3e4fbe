"""C02: rank neighbours on the cubed sphere are the geometric neighbours on a cube."""
from hypothesis import strategies as st

from .. import cube
from ..core import LCG, require


def strategy(tier):
    top = 7 if tier == "thorough" else 6
    return st.fixed_dictionaries(
        {
            "layout": st.one_of(st.integers(1, top), st.integers(1, top),
                                st.sampled_from([8, 11, 12, 16, 17, 24])),
            # queries: boundary lookups in an arbitrary order, some on a fresh object,
            # some whose result the caller modifies
            "queries": st.lists(
                st.fixed_dictionaries(
                    {
                        "rank": st.integers(0, 10 ** 6),
                        "type": st.integers(0, 7),
                        "mutate": st.booleans(),
                        "fresh": st.sampled_from([0, 0, 0, 1]),
                        "np_rank": st.booleans(),
                    }
                ),
                min_size=1, max_size=40,
            ),
            # visit ranks at the edge of a tile, of which big layouts have few
            "edge": st.booleans(),
            "sweep": st.sampled_from([0, 0, 1]),
            "sweep_seed": st.integers(0, 2 ** 20),
        }
    )


PINNED = [{"layout": n, "queries": [], "sweep": 1, "sweep_seed": n} for n in range(1, 7)] + [
    {"layout": n, "queries": [
        {"rank": k * 7919 + n, "type": k % 8, "mutate": False, "fresh": 0, "np_rank": False}
        for k in range(60)], "edge": True, "sweep": 0, "sweep_seed": n}
    for n in (12, 17)]


def check(case, ctx):
    import fv3gfs.util as util

    layout = case["layout"]
    n_ranks = 6 * layout * layout

    def make():
        with ctx.sut("CubedSpherePartitioner"):
            return util.CubedSpherePartitioner(util.TilePartitioner((layout, layout)))

    part = make()
    require(part.total_ranks == n_ranks, "total_ranks")
    queries = list(case["queries"])
    if case["sweep"] and layout < 8:
        pairs = [(r, t) for r in range(n_ranks) for t in range(8)]
        for k, (r, t) in enumerate(LCG(case["sweep_seed"]).shuffled(pairs)):
            queries.append({"rank": r, "type": t, "mutate": k % 3 == 0, "fresh": 0,
                            "np_rank": False})
    for q in queries:
        rank, btype = q["rank"] % n_ranks, q["type"]
        if case.get("edge"):
            # the rank at the end of this row or column, in the direction asked for
            dx, dy = cube.DIRECTION[btype]
            tile, j, i = cube.rank_position(rank, layout)
            if dx and (not dy or rank % 2):
                i = 0 if dx < 0 else layout - 1
            else:
                j = 0 if dy < 0 else layout - 1
            rank = (tile * layout + j) * layout + i
        if q["fresh"]:
            part = make()
        arg = rank
        if q["np_rank"]:
            import numpy as np

            arg = np.int64(rank)
        with ctx.sut(f"boundary({btype}, {rank})"):
            got = part.boundary(btype, arg)
        want = cube.neighbour(rank, layout, btype)
        where = f"layout {layout}, rank {rank}, boundary type {btype}"
        if want is None:
            ctx.label("corner without neighbour")
            require(got is None, f"{where}: boundary across a tile corner: {got}")
            continue
        require(got is not None, f"{where}: no boundary, expected rank {want[0]}")
        require(
            int(got.to_rank) == want[0] and 0 <= int(got.to_rank) < n_ranks,
            f"{where}: neighbour {got.to_rank}, geometrically {want[0]}",
        )
        require(int(got.from_rank) == rank, f"{where}: from_rank {got.from_rank}")
        require(got.boundary_type == btype, f"{where}: boundary_type {got.boundary_type}")
        require(
            int(got.n_clockwise_rotations) % 4 == want[1],
            f"{where}: {got.n_clockwise_rotations} rotations, geometrically {want[1]}",
        )
        if want[0] // layout ** 2 != rank // layout ** 2:
            ctx.label("crosses a tile edge")
            ctx.nontrivial()
            if want[1]:
                ctx.label("rotated")
            if btype > 3:
                ctx.label("corner over a tile edge")
        if q["mutate"]:
            got.to_rank += 1
            got.n_clockwise_rotations += 1
            got.from_rank = -1
            got.boundary_type = 3 - got.boundary_type % 4
