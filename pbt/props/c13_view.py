"""C13: indexing a quantity's view addresses the compute domain."""
import numpy as np
from hypothesis import strategies as st

from .. import quantities as Q
from ..arrays import seeds
from ..core import require


@st.composite
def entries(draw, axis):
    """One index entry, valid for an axis."""
    o, e, end = axis["origin"], axis["extent"], axis["end"]
    kind = draw(st.sampled_from(["int", "slice", "slice", "slice", "all"]))
    if kind == "int":
        return {"int": draw(st.integers(-o, e + end - 1)), "np": draw(st.booleans())}
    if kind == "all":
        return {"slice": [None, None, None]}
    bound = st.one_of(st.none(), st.integers(-o, e + end + 2), st.integers(0, e))
    return {"slice": [draw(bound), draw(bound),
                      draw(st.sampled_from([None, None, None, 1, 2, 3, -1, -2]))],
            "np": draw(st.booleans())}


@st.composite
def cases(draw, tier):
    spec = draw(Q.quantities())
    accesses = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.integers(0, len(spec["dims"])))
        accesses.append(
            {
                "entries": [draw(entries(a)) for a in spec["axes"][:n]],
                "bare": draw(st.booleans()),
                "seed": draw(seeds),
            }
        )
    return {"spec": spec, "accesses": accesses, "extra_index": draw(st.integers(1, 2))}


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    import fv3gfs.util as util

    with ctx.sut("construction"):
        made = Q.Made(util, case["spec"])
    view = made.quantity.view
    require(tuple(view.origin) == made.origin and tuple(view.extent) == made.extent,
            "origin and extent of the view")
    n_dims = len(made.dims)
    for access in case["accesses"]:
        index, positions = [], []
        for entry, o, e, shape in zip(access["entries"], made.origin, made.extent, made.shape):
            wrap = np.int64 if entry.get("np") else int
            if "int" in entry:
                index.append(wrap(entry["int"]))
                positions.append(entry["int"] + o)
                ctx.label("integer")
                continue
            start, stop, step = entry["slice"]
            index.append(slice(*[None if k is None else wrap(k) for k in entry["slice"]]))
            down = step is not None and step < 0
            first = (o + e - 1 if down else o) if start is None else start + o
            last = (o - 1 if down else o + e) if stop is None else stop + o
            positions.append(Q.slice_positions(first, last, step, shape))
            if down:
                ctx.label("backwards")
            if (start or 0) < 0 or (stop or 0) < 0:
                ctx.label("halo before the origin")
        for o, e in list(zip(made.origin, made.extent))[len(index):]:
            positions.append(list(range(o, o + e)))
        if len(index) == 1 and access["bare"]:
            arg = index[0]
        elif not index and (access["bare"] or n_dims == 0):
            arg = slice(None)
        else:
            arg = tuple(index)
        what = f"view[{arg}] of shape {made.shape} origin {made.origin} extent {made.extent}"
        Q.check_access(made, view, arg, positions, what, ctx, access["seed"])
        ctx.nontrivial(any(made.origin) and bool(index))
    rejected = [(0,) * (n_dims + case["extra_index"])]
    if n_dims == 0:
        rejected += [slice(0, 1), slice(None, None, 2), (slice(None),)]
    for too_many in rejected:
        def write():
            view[too_many] = 1

        ctx.raises(IndexError, lambda: view[too_many], f"view[{too_many}] of {n_dims} dims")
        ctx.raises(IndexError, write, f"assigning to view[{too_many}] of {n_dims} dims")
    made.require_data(made.saved, "a rejected index changed the data")
    ctx.label("dims", n_dims)
