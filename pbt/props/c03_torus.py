"""C03: tile-local neighbours form a doubly periodic torus."""
from hypothesis import strategies as st

from .. import cube
from ..core import LCG, require


def strategy(tier):
    top = 9 if tier == "thorough" else 7
    return st.fixed_dictionaries(
        {
            "layout": st.tuples(st.integers(1, top), st.integers(1, top)).map(list),
            "queries": st.lists(
                st.fixed_dictionaries(
                    {
                        "rank": st.integers(0, 10 ** 6),
                        "type": st.integers(0, 7),
                        "mutate": st.booleans(),
                        "fresh": st.sampled_from([0, 0, 0, 1]),
                    }
                ),
                min_size=1, max_size=30,
            ),
            "sweep": st.sampled_from([0, 1]),
            "sweep_seed": st.integers(0, 2 ** 20),
        }
    )


PINNED = [{"layout": [a, b], "queries": [], "sweep": 1, "sweep_seed": a}
          for a in range(1, 5) for b in range(1, 5)]
OPPOSITE = {0: 1, 1: 0, 2: 3, 3: 2, 4: 7, 7: 4, 5: 6, 6: 5}


def check(case, ctx):
    import fv3gfs.util as util

    ny, nx = case["layout"]
    n_ranks = ny * nx

    def make():
        with ctx.sut("TilePartitioner"):
            return util.TilePartitioner((ny, nx))

    names = [util.WEST, util.EAST, util.NORTH, util.SOUTH, util.NORTHWEST, util.NORTHEAST,
             util.SOUTHWEST, util.SOUTHEAST]
    part = make()
    # a second layout in use at the same time must not matter
    other = util.TilePartitioner((nx + 1, ny))
    queries = list(case["queries"])
    if case["sweep"]:
        pairs = [(r, t) for r in range(n_ranks) for t in range(8)]
        for k, (r, t) in enumerate(LCG(case["sweep_seed"]).shuffled(pairs)):
            queries.append({"rank": r, "type": t, "mutate": k % 3 == 0, "fresh": 0})
    for q in queries:
        rank, btype = q["rank"] % n_ranks, names[q["type"]]
        if q["fresh"]:
            part = make()
        j, i = divmod(rank, nx)
        dx, dy = cube.DIRECTION[q["type"]]
        want = ((j + dy) % ny) * nx + (i + dx) % nx
        where = f"layout {(ny, nx)}, rank {rank}, boundary type {btype}"
        with ctx.sut(where):
            other.boundary(btype, rank)
            got = part.boundary(btype, rank)
        require(got is not None and int(got.to_rank) == want,
                f"{where}: {got}, expected rank {want}")
        require(int(got.from_rank) == rank and got.boundary_type == btype, f"{where}: {got}")
        require(int(got.n_clockwise_rotations) % 4 == 0, f"{where}: {got} is rotated")
        with ctx.sut(where):
            back = part.boundary(names[OPPOSITE[q["type"]]], got.to_rank)
        require(int(back.to_rank) == rank, f"{where}: opposite of {got} is {back}")
        for name, value in (("on_tile_left", i == 0), ("on_tile_right", i == nx - 1),
                            ("on_tile_bottom", j == 0), ("on_tile_top", j == ny - 1)):
            with ctx.sut(name):
                found = getattr(part, name)(rank)
            require(bool(found) is value, f"{where}: {name} is {found}")
        with ctx.sut("fliplr_rank, rotate_rank"):
            found = (part.fliplr_rank(rank), part.rotate_rank(rank, 0))
        require(found == (j * nx + nx - 1 - i, rank),
                f"{where}: reflected and left alone, it is at {found}")
        for name, want in (("fliplr_subtile_rank", j * nx + nx - 1 - i),
                           ("flipud_subtile_rank", (ny - 1 - j) * nx + i),
                           ("transpose_subtile_rank", i * nx + j if nx == ny else None)):
            function = getattr(util.partitioner, name, None)
            if function and want is not None:
                with ctx.sut(name):
                    found = function(rank, (ny, nx))
                require(found == want, f"{where}: {name} moves it to {found}, not {want}")
        if nx == ny:  # a quarter turn maps the tile's ranks to each other
            turned = part.rotate_rank(rank, 1)
            require(turned == (nx - 1 - i) * nx + j, f"{where}: turned clockwise, at {turned}")
        if dx and not 0 <= i + dx < nx or dy and not 0 <= j + dy < ny:
            ctx.label("wraps around")
            ctx.nontrivial(ny > 1 and nx > 1)
        if q["mutate"]:
            got.to_rank += 1
            got.n_clockwise_rotations += 1
            got.from_rank = -1
    ctx.label("layout", "square" if nx == ny else "rectangular")
