"""C34: what boundary objects call send and receive views are the two sides of an exchange."""
import numpy as np
from hypothesis import strategies as st

from .. import cube
from ..arrays import X, XI, Y, YI, allocate, encode, first_difference, same, seeds
from ..core import LCG, fail, require
from ..fields import SCALAR_DTYPES, Field, extras, layouts_in_memory, rank_memory

OPPOSITE = {0: 1, 1: 0, 2: 3, 3: 2, 4: 7, 7: 4, 5: 6, 6: 5}


@st.composite
def torus(draw, tier):
    top = 4 if tier == "thorough" else 3
    cells = [draw(st.sampled_from([1, 2, 2, 3, 3, 4, 7])) for _ in range(2)]
    extra = draw(extras(2, 2))
    n = draw(st.integers(1, min(cells)))
    return {
        "kind": "tile", "layout": [draw(st.integers(1, top)), draw(st.integers(1, top))],
        "cells": cells, "extra": extra, "n": n,
        "interface": [draw(st.booleans()), draw(st.booleans())],
        "spec": draw(layouts_in_memory(n, n, extra)),
    }


@st.composite
def sphere(draw, tier):
    layout = draw(st.sampled_from([1, 2, 2, 3] + ([4] if tier == "thorough" else [])))
    cells = draw(st.integers(1, 4 if layout < 3 else 2))
    extra = draw(extras(1, 2))
    n = draw(st.integers(1, cells))
    return {
        "kind": "cube", "layout": [layout, layout], "cells": [cells, cells], "extra": extra,
        "n": n, "interface": [draw(st.booleans())] * 2,
        "spec": draw(layouts_in_memory(n, n, extra)),
    }


@st.composite
def cases(draw, tier):
    case = draw(st.one_of(torus(tier), torus(tier), sphere(tier)))
    case.update({
        "dtype": draw(st.sampled_from(SCALAR_DTYPES)),
        "vary_memory": draw(st.booleans()),
        # how many points are exchanged, one exchange after the other
        "rounds": draw(st.lists(st.integers(0, 6), min_size=1, max_size=3)),
        "order": draw(seeds),
        "fresh": draw(st.booleans()),
        # a width that the array has no room for, on one boundary of one rank
        "beyond": draw(st.none() | st.tuples(st.integers(0, 500), st.integers(0, 7),
                                             st.integers(1, 3))),
    })
    return case


def strategy(tier):
    return cases(tier)


class TorusField(Field):
    """A field on one doubly periodic tile; the rest is the field on the cube."""

    def __init__(self, case, rank, spec):
        self.ranks, self.n_cells = case["layout"], case["cells"]
        self.layout, self.cells, self.rank = None, None, rank
        self.spec, self.extra = spec, case["extra"]
        self.yi, self.xi = case["interface"]
        self.dtype = np.dtype(case["dtype"])
        names = [YI if self.yi else Y, XI if self.xi else X]
        names += [e["name"] for e in self.extra]
        ext = [self.n_cells[0] + self.yi, self.n_cells[1] + self.xi]
        ext += [e["extent"] for e in self.extra]
        org = list(spec["start"]) + [e["origin"] for e in self.extra]
        pad = list(spec["end"]) + [e["pad"] for e in self.extra]
        order = spec["order"]
        self.dims = [names[i] for i in order]
        self.canonical_extent, self.canonical_origin = ext, org
        self.extent = tuple(ext[i] for i in order)
        self.origin = tuple(org[i] for i in order)
        self.shape = tuple(ext[i] + org[i] + pad[i] for i in order)
        self.data = allocate(self.shape, self.dtype, spec["memory"])

    def global_values(self, halo, salt, component=None):
        at = divmod(self.rank, self.ranks[1])
        index = []
        for k in range(2):
            period = self.ranks[k] * self.n_cells[k]
            first = at[k] * self.n_cells[k]
            index.append((first + np.arange(-halo, self.canonical_extent[k] + halo)) % period)
        ids = index[0][:, None] * self.ranks[1] * self.n_cells[1] + index[1][None, :]
        return self.values(ids, None, salt), ids >= 0


def check(case, ctx):
    import fv3gfs.util as util
    from fv3gfs.util import rotate

    ny, nx = case["layout"]
    on_cube = case["kind"] == "cube"
    n_ranks = (6 if on_cube else 1) * ny * nx
    types = [util.WEST, util.EAST, util.NORTH, util.SOUTH, util.NORTHWEST, util.NORTHEAST,
             util.SOUTHWEST, util.SOUTHEAST]

    def partitioner():
        with ctx.sut("partitioner"):
            tile = util.TilePartitioner((ny, nx))
            return util.CubedSpherePartitioner(tile) if on_cube else tile

    part = partitioner()
    fields = []
    for r in range(n_ranks):
        spec = rank_memory(case["spec"], r, case["vary_memory"])
        if on_cube:
            fields.append(Field({"layout": ny, "cells": case["cells"][0]}, r, spec,
                                case["extra"], *case["interface"], case["dtype"]))
        else:
            fields.append(TorusField(case, r, spec))
    quantities = [f.quantity(util) for f in fields]
    for k, width in enumerate(case["rounds"]):
        n = 1 + width % case["n"]
        expected = []
        for f in fields:
            f.scramble(k)
            f.set_interior(k)
        for f in fields:
            expected.append(f.expected_after_halo(f.data, n, k))
        if case["fresh"]:
            part = partitioner()
        pairs = [(r, t) for r in range(n_ranks) for t in range(8)]
        done = 0
        # receiving writes halos and sending reads compute domains: any order will do
        for r, t in LCG(case["order"] + k).shuffled(pairs):
            where = f"round {k}: {case['kind']} {(ny, nx)}, rank {r}, type {types[t]}, {n} wide"
            with ctx.sut(where):
                here = part.boundary(types[t], r)
                if here is None:
                    continue
                if not on_cube:
                    there = part.boundary(types[OPPOSITE[t]], here.to_rank)
                else:
                    facing = [part.boundary(other, here.to_rank) for other in types]
                    facing = [b for b in facing if b is not None and b.to_rank == r]
                    require(len(facing) == 1, f"{where}: {len(facing)} boundaries face it")
                    there = facing[0]
                target = here.recv_view(quantities[r], n)
                source = there.send_view(quantities[there.from_rank], n_points=n)
                require(target.size == 0 or np.shares_memory(target, fields[r].data),
                        f"{where}: the receive view is of other memory")
                require(source.size == 0 or np.shares_memory(source, fields[there.from_rank].data),
                        f"{where}: the send view is of other memory")
                moved = rotate.rotate_scalar_data(
                    source, quantities[there.from_rank].dims, np,
                    -there.n_clockwise_rotations)
            require(moved.shape == target.shape,
                    f"{where}: {moved.shape} is sent, {target.shape} received")
            target[...] = moved
            done += 1
        for f, want in zip(fields, expected):
            f.check(want, f"round {k}, {n} points, {done} boundaries")
    if case["beyond"]:
        r, t, more = case["beyond"]
        r %= n_ranks
        f, q = fields[r], quantities[r]
        here = part.boundary(types[t], r)
        if here is not None:
            # the directions in which this boundary's halo lies, and the room there
            room = []
            dx, dy = cube.DIRECTION[t]
            for axis, step in enumerate((dy, dx)):
                if step:
                    room.append(case["spec"]["start" if step < 0 else "end"][axis])
            before = f.data.copy()
            try:
                got = here.recv_view(q, min(room) + more)
            except util.OutOfBoundsError:
                pass
            except Exception as error:
                fail(f"{type(error).__name__} for a boundary wider than the halo: {error}")
            else:
                fail(f"a receive view of shape {got.shape}, wider than the halo {room}")
            require(same(np.ascontiguousarray(f.data), np.ascontiguousarray(before)),
                    lambda: f"refused view changed data: {first_difference(f.data, before)}")
            ctx.label("refused", True)
    ctx.label("kind", case["kind"])
    ctx.label("interface", str(case["interface"]))
    ctx.nontrivial(max(case["cells"]) > 1 and n_ranks > 1)

