"""C05: a vector halo update delivers the owner's vector in the receiver's axes."""
from hypothesis import strategies as st

from ..arrays import schedules
from ..core import require
from ..fields import (Field, STAGGER, VECTOR_DTYPES, extras, grids, halo_widths,
                      layouts_in_memory, rank_memory, twin)
from ..sim import world_from


@st.composite
def cases(draw, tier):
    deep = tier == "thorough"
    grid = draw(grids(4 if deep else 3, 5 if deep else 4,
                      (1, 1, 2, 2, 3, 4) if deep else (1, 1, 2, 2, 3)))
    if grid["layout"] == 4:
        grid["cells"] = min(grid["cells"], 2)
    extra = draw(extras(2 if grid["layout"] < 3 else 1))
    n = draw(halo_widths(grid["cells"]))
    first = {
        "cells": grid["cells"], "n": n, "extra": extra,
        "spec": draw(layouts_in_memory(n, n, extra)),
        "dtype": draw(st.sampled_from(VECTOR_DTYPES)),
    }
    pairs = [first]
    for _ in range(draw(st.sampled_from([0, 1, 1]))):
        pairs.append(draw(twin(first, VECTOR_DTYPES)))
    for pair in pairs:
        pair["stagger"] = draw(st.sampled_from("ABCD"))
        # "the x and y dimension indices are the same between the two quantities"
        pair["y"] = draw(layouts_in_memory(pair["n"], pair["n"], pair["extra"]))
        pair["y"]["order"] = pair["spec"]["order"]
    return {
        "layout": grid["layout"],
        "pairs": pairs,
        "vary_memory": draw(st.booleans()),
        "rounds": draw(st.lists(
            st.tuples(st.integers(0, 1), st.integers(0, 11)), min_size=1,
            max_size=3 if len(pairs) == 1 else 4)),
        "async": draw(st.booleans()),
        # every round with quantities of its own, freed before the next one
        "temporary": draw(st.sampled_from([False, False, True])),
        "sched": draw(schedules(False)),
    }


def strategy(tier):
    return cases(tier)


def make_pair(layout, rank, pair, vary):
    grid = {"layout": layout, "cells": pair["cells"]}
    (xs, ys) = STAGGER[pair["stagger"]]
    fx = Field(grid, rank, rank_memory(pair["spec"], rank, vary),
               pair["extra"], xs[0], xs[1], pair["dtype"])
    fy = Field(grid, rank, rank_memory(pair["y"], rank + 3, vary),
               pair["extra"], ys[0], ys[1], pair["dtype"])
    return fx, fy


def check(case, ctx):
    import fv3gfs.util as util

    layout = case["layout"]
    n_ranks = 6 * layout * layout
    specs = case["pairs"]
    with ctx.sut("partitioner"):
        part = util.CubedSpherePartitioner(util.TilePartitioner((layout, layout)))

    def program(comm):
        r = comm.Get_rank()
        pairs = [make_pair(layout, r, p, case["vary_memory"]) for p in specs]
        quantities = [[None if case["temporary"] else f.quantity(util) for f in p]
                      for p in pairs]
        cube_comm = util.CubedSphereCommunicator(comm, part)
        for k, (i, n_points) in enumerate(case["rounds"]):
            i %= len(specs)
            n_points = 1 + n_points % specs[i]["n"]
            if case["temporary"]:
                pairs[i] = make_pair(layout, r, specs[i], case["vary_memory"])
                quantities[i] = [f.quantity(util) for f in pairs[i]]
            for field, comp in zip(pairs[i], "xy"):
                field.scramble(k + (5 if comp == "y" else 0))
                field.set_interior(k, comp)
            before = [[f.data.copy() for f in p] for p in pairs]
            if case["async"]:
                cube_comm.start_vector_halo_update(*quantities[i], n_points).wait()
            else:
                cube_comm.vector_halo_update(*quantities[i], n_points)
            for c, comp in enumerate("xy"):
                before[i][c] = pairs[i][c].expected_after_halo(
                    before[i][c], n_points, k, comp)
                for p, old in zip(pairs, before):
                    p[c].check(old[c], f"round {k}, {comp}-component, {n_points} halo points "
                               f"of pair {i}, staggering {specs[i]['stagger']}")
            if case["temporary"]:
                quantities[i] = None
        return True

    world = world_from(n_ranks, case["sched"])
    require(all(world.run(program)), "not every rank finished")
    require(world.leftovers() == 0, f"{world.leftovers()} messages were never received")
    first = specs[0]
    ctx.nontrivial(first["cells"] > 1 or layout > 1)
    ctx.label("layout", layout)
    ctx.label("stagger", first["stagger"])
    ctx.label("send mode", case["sched"]["mode"])
    ctx.label("pairs", len({i % len(specs) for i, _ in case["rounds"]}))
    ctx.label("n_points", max(1 + n % specs[i % len(specs)]["n"] for i, n in case["rounds"]))
    ctx.label("extra dims", len(first["extra"]))
    order = first["spec"]["order"]
    ctx.label("x before y", order.index(1) < order.index(0))
