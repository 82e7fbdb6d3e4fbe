"""C06: synchronising an edge-staggered vector copies south/west edges to their twins."""
import functools

from hypothesis import strategies as st

from .. import cube
from ..arrays import first_difference, same, schedules
from ..core import require
from ..fields import (Field, VECTOR_DTYPES, extras, grids, layouts_in_memory, rank_memory)
from ..sim import world_from


@st.composite
def cases(draw, tier):
    deep = tier == "thorough"
    grid = draw(grids(4 if deep else 3, 5 if deep else 4,
                      (1, 1, 2, 2, 3, 4) if deep else (1, 1, 2, 2, 3)))
    extra = draw(extras(2 if grid["layout"] < 3 else 1))
    x_spec = draw(layouts_in_memory(0, 0, extra))
    y_spec = draw(layouts_in_memory(0, 0, extra))
    y_spec["order"] = list(x_spec["order"])
    y, x = (x_spec["order"].index(d) for d in (0, 1))
    if abs(y - x) == 1 and draw(st.booleans()):
        # an edge of one component fits the other in memory as long as all other dims are
        # on the same side of the horizontal ones
        y_spec["order"][y], y_spec["order"][x] = 1, 0
    return {
        "grid": grid,
        "extra": extra,
        "x": x_spec,
        "y": y_spec,
        "vary_memory": draw(st.booleans()),
        "dtype": draw(st.sampled_from(VECTOR_DTYPES)),
        "rounds": draw(st.integers(1, 2)),
        "async": draw(st.booleans()),
        # every round with quantities of its own, freed before the next one
        "temporary": draw(st.sampled_from([False, False, True])),
        "sched": draw(schedules(False)),
    }


def strategy(tier):
    return cases(tier)


def make_pair(case, rank):
    """x on (y_interface, x), y on (y, x_interface)."""
    fx = Field(case["grid"], rank, rank_memory(case["x"], rank, case["vary_memory"]),
               case["extra"], 1, 0, case["dtype"])
    fy = Field(case["grid"], rank, rank_memory(case["y"], rank + 3, case["vary_memory"]),
               case["extra"], 0, 1, case["dtype"])
    return fx, fy


@functools.lru_cache(maxsize=64)
def donors(layout, cells):
    """(rank, component, k) on a north/east edge -> (rank', component', k', sign)."""
    n = layout * cells
    table, out = {}, {}
    n_ranks = 6 * layout * layout

    def points(rank):
        tile, j, i = cube.rank_position(rank, layout)
        for k in range(cells):
            yield "x", "south", k, tile, 2 * (i * cells + k) + 1, 2 * j * cells
            yield "x", "north", k, tile, 2 * (i * cells + k) + 1, 2 * (j + 1) * cells
            yield "y", "west", k, tile, 2 * i * cells, 2 * (j * cells + k) + 1
            yield "y", "east", k, tile, 2 * (i + 1) * cells, 2 * (j * cells + k) + 1

    for rank in range(n_ranks):
        for comp, edge, k, tile, a, b in points(rank):
            position, ex, ey = cube.fold(n, tile, a, b)
            axis, sign = cube.axis_sign(ex if comp == "x" else ey)
            key = tuple(int(v) for v in position) + (axis,)
            if edge in ("south", "west"):
                assert key not in table
                table[key] = (rank, comp, k, sign)
            else:
                out[(rank, comp, k)] = (key, sign)
    return {
        where: table[key][:3] + (sign * table[key][3],)
        for where, (key, sign) in out.items()
    }


def edge(field, comp, which, k, array=None):
    """Slice (over extra dims) of an edge point of the compute domain."""
    can = field.canonical(array)
    sl = list(field.window(0))
    y0, x0 = field.canonical_origin[:2]
    if comp == "x":
        sl[0] = y0 if which == "start" else y0 + field.canonical_extent[0] - 1
        sl[1] = x0 + k
    else:
        sl[0] = y0 + k
        sl[1] = x0 if which == "start" else x0 + field.canonical_extent[1] - 1
    return can, tuple(sl)


def expected_after_sync(pairs_before, fields, layout, cells):
    """All ranks' arrays after synchronisation, from all ranks' arrays before."""
    after = [[a.copy(), b.copy()] for a, b in pairs_before]
    for (rank, comp, k), (r2, comp2, k2, sign) in donors(layout, cells).items():
        c, c2 = "xy".index(comp), "xy".index(comp2)
        src, s_idx = edge(fields[r2][c2], comp2, "start", k2, pairs_before[r2][c2])
        dst, d_idx = edge(fields[rank][c], comp, "end", k, after[rank][c])
        dst[d_idx] = src[s_idx] if sign > 0 else -src[s_idx]
    return after


def check(case, ctx):
    import fv3gfs.util as util

    grid = case["grid"]
    layout, cells = grid["layout"], grid["cells"]
    n_ranks = 6 * layout * layout
    with ctx.sut("partitioner"):
        part = util.CubedSpherePartitioner(util.TilePartitioner((layout, layout)))

    def program(comm):
        r = comm.Get_rank()
        cube_comm = util.CubedSphereCommunicator(comm, part)
        fields = make_pair(case, r)
        qx, qy = (f.quantity(util) for f in fields)
        log = []
        for k in range(case["rounds"]):
            if case["temporary"] and k:
                del qx, qy
                fields = make_pair(case, r)
                qx, qy = (f.quantity(util) for f in fields)
            fields[0].scramble(2 * k + 1)
            fields[1].scramble(2 * k + 2)
            before = [f.data.copy() for f in fields]
            if case["async"]:
                cube_comm.start_synchronize_vector_interfaces(qx, qy).wait()
            else:
                cube_comm.synchronize_vector_interfaces(qx, qy)
            log.append((before, [f.data.copy() for f in fields]))
        return fields, log

    world = world_from(n_ranks, case["sched"])
    fields, logs = zip(*world.run(program))
    for k in range(case["rounds"]):
        want = expected_after_sync([log[k][0] for log in logs], fields, layout, cells)
        for r in range(n_ranks):
            for c in range(2):
                got = logs[r][k][1][c]
                require(same(got, want[r][c]),
                        lambda: f"round {k}, rank {r}, {'xy'[c]}-component after "
                        f"synchronisation: {first_difference(got, want[r][c])}")
    require(world.leftovers() == 0, f"{world.leftovers()} messages were never received")
    ctx.nontrivial(cells > 1)
    ctx.label("layout", layout)
    ctx.label("extra dims", len(case["extra"]))
    ctx.label("same order", case["x"]["order"] == case["y"]["order"])
    ctx.label("x before y", case["x"]["order"].index(1) < case["x"]["order"].index(0))
