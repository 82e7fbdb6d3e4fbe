"""C04: a scalar halo update fills every halo point with the value of its owner."""
from hypothesis import strategies as st

from ..arrays import schedules
from ..core import require
from ..fields import (Field, SCALAR_DTYPES, extras, grids, halo_widths, layouts_in_memory,
                      rank_memory, twin)
from ..sim import world_from


@st.composite
def cases(draw, tier):
    grid = draw(grids(4 if tier == "thorough" else 3, 5 if tier == "thorough" else 4,
                      (1, 1, 2, 2, 3, 4) if tier == "thorough" else (1, 1, 2, 2, 3)))
    if grid["layout"] == 4:
        grid["cells"] = min(grid["cells"], 2)
    extra = draw(extras(2 if grid["layout"] < 3 else 1))
    n = draw(halo_widths(grid["cells"]))
    first = {
        "cells": grid["cells"], "n": n, "extra": extra, "interface": draw(st.booleans()),
        "spec": draw(layouts_in_memory(n, n, extra)),
        "dtype": draw(st.sampled_from(SCALAR_DTYPES)),
    }
    quantities = [first]
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        quantities.append(draw(twin(first, SCALAR_DTYPES)))
    return {
        "layout": grid["layout"],
        "quantities": quantities,
        "vary_memory": draw(st.booleans()),
        # which quantity is updated in every round, and how many points of it
        "rounds": draw(st.lists(
            st.tuples(st.integers(0, 2), st.integers(0, 11)), min_size=1,
            max_size=3 if len(quantities) == 1 else 4)),
        "async": draw(st.booleans()),
        # every round with a quantity of its own, freed before the next one
        "temporary": draw(st.sampled_from([False, False, True])),
        "sched": draw(schedules(False)),
    }


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    import fv3gfs.util as util

    layout = case["layout"]
    n_ranks = 6 * layout * layout
    specs = case["quantities"]
    with ctx.sut("partitioner"):
        part = util.CubedSpherePartitioner(util.TilePartitioner((layout, layout)))

    def program(comm):
        r = comm.Get_rank()

        def field_of(k):
            q = specs[k]
            return Field({"layout": layout, "cells": q["cells"]}, r,
                         rank_memory(q["spec"], r + k, case["vary_memory"]), q["extra"],
                         q["interface"], q["interface"], q["dtype"])

        fields = [field_of(k) for k in range(len(specs))]
        quantities = [None if case["temporary"] else f.quantity(util) for f in fields]
        cube_comm = util.CubedSphereCommunicator(comm, part)
        for k, (i, n_points) in enumerate(case["rounds"]):
            i %= len(specs)
            n_points = 1 + n_points % specs[i]["n"]
            if case["temporary"]:
                fields[i] = field_of(i)
                quantities[i] = fields[i].quantity(util)
            field, quantity = fields[i], quantities[i]
            field.scramble(k)
            field.set_interior(k)
            before = [f.data.copy() for f in fields]
            if case["async"]:
                cube_comm.start_halo_update(quantity, n_points).wait()
            else:
                cube_comm.halo_update(quantity, n_points)
            before[i] = field.expected_after_halo(before[i], n_points, k)
            for f, want in zip(fields, before):
                f.check(want, f"round {k}, {n_points} halo points of quantity {i}")
            if case["temporary"]:
                quantity = quantities[i] = None
        return True

    world = world_from(n_ranks, case["sched"])
    require(all(world.run(program)), "not every rank finished")
    require(world.leftovers() == 0, f"{world.leftovers()} messages were never received")
    first = specs[0]
    ctx.nontrivial(first["cells"] > 1 or layout > 1)
    ctx.label("layout", layout)
    ctx.label("interface", first["interface"])
    ctx.label("send mode", case["sched"]["mode"])
    ctx.label("temporary" if case["temporary"] else "kept")
    ctx.label("extra dims", len(first["extra"]))
    ctx.label("quantities", len({i % len(specs) for i, _ in case["rounds"]}))
    ctx.label("n_points", max(1 + n % specs[i % len(specs)]["n"] for i, n in case["rounds"]))
    if first["spec"]["order"] != list(range(2 + len(first["extra"]))):
        ctx.label("permuted dims")
