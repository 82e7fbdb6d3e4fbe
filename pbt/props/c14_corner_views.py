"""C14: corner, interior and named views are relative to their anchor."""
from hypothesis import strategies as st

from .. import quantities as Q
from ..arrays import X_DIMS, Y_DIMS, seeds
from ..core import require

CORNERS = {  # view -> (y anchored at the end, x anchored at the end)
    "southwest": (False, False), "southeast": (False, True),
    "northwest": (True, False), "northeast": (True, True),
}


def anchor(name, dim, axis):
    """Position that offset 0 denotes, for starts and for stops."""
    o, end = axis["origin"], axis["origin"] + axis["extent"]
    if name == "view":
        return o, o
    if name == "interior":
        return o, end
    at_end = False
    if dim in Y_DIMS:
        at_end = CORNERS[name][0]
    elif dim in X_DIMS:
        at_end = CORNERS[name][1]
    return (end, end) if at_end else (o, o)


@st.composite
def entries(draw, name, dim, axis):
    length = axis["origin"] + axis["extent"] + axis["end"]
    start, stop = anchor(name, dim, axis)
    kind = draw(st.sampled_from(["int", "slice", "slice", "slice", "all"]))
    horizontal = dim in X_DIMS + Y_DIMS
    if kind == "all" or (name == "interior" and not horizontal):
        return {"slice": [None, None, None]}
    if kind == "int":
        return {"int": draw(st.integers(-start, length - 1 - start))}
    first = draw(st.one_of(st.none(), st.integers(-start, length - start)))
    last = draw(st.one_of(st.none(), st.integers(-stop, length - stop + 1)))
    return {"slice": [first, last, draw(st.sampled_from([None, None, None, 1, 2]))]}


@st.composite
def cases(draw, tier):
    spec = draw(Q.quantities(one_per_axis=draw(st.integers(0, 3)) > 0, max_dims=4))
    accesses = []
    for _ in range(draw(st.integers(1, 4))):
        name = draw(st.sampled_from(list(CORNERS) + ["interior", "view"]))
        n = draw(st.integers(0, len(spec["dims"])))
        how = draw(st.sampled_from(["index", "index", "sel"]))
        if how == "sel":
            which = draw(st.permutations(list(range(len(spec["dims"])))))[:n]
        else:
            which = list(range(n))
        accesses.append(
            {
                "view": name,
                "how": how,
                "which": which,
                "entries": [draw(entries(name, spec["dims"][k], spec["axes"][k]))
                            for k in which],
                "bare": draw(st.booleans()),
                "seed": draw(seeds),
            }
        )
    return {"spec": spec, "accesses": accesses}


def strategy(tier):
    return cases(tier)


class Named:
    """Makes reading by name look like indexing."""

    def __init__(self, target, view, order):
        self.target, self.view, self.order = target, view, order

    def __getitem__(self, kwargs):
        return self.target.sel(**dict(kwargs))

    def __setitem__(self, kwargs, value):
        self.target.sel(**dict(kwargs))[...] = value


def check(case, ctx):
    import fv3gfs.util as util

    with ctx.sut("construction"):
        made = Q.Made(util, case["spec"])
    n_dims = len(made.dims)
    axes = case["spec"]["axes"]
    for access in case["accesses"]:
        name = access["view"]
        view = made.quantity.view if name == "view" else getattr(made.quantity.view, name)
        positions = [list(range(o, o + e)) for o, e in zip(made.origin, made.extent)]
        index = {}
        for k, entry in zip(access["which"], access["entries"]):
            start0, stop0 = anchor(name, made.dims[k], axes[k])
            if "int" in entry:
                index[k] = entry["int"]
                positions[k] = entry["int"] + start0
                continue
            start, stop, step = entry["slice"]
            index[k] = slice(start, stop, step)
            first = made.origin[k] if start is None else start + start0
            last = made.origin[k] + made.extent[k] if stop is None else stop + stop0
            positions[k] = list(range(*slice(first, last, step).indices(made.shape[k])))
        if access["how"] == "sel":
            # view.sel only exists on corner views; the quantity selects on its view
            target = made.quantity if name == "view" else view
            arg = tuple((made.dims[k], v) for k, v in index.items())
            what = f"{name}.sel({dict(arg)}) of dims {made.dims}"
            handle = Named(target, view, arg)
            if result_is_scalar(positions):
                with ctx.sut(what):
                    got = handle[arg]
                want = made.data[tuple(positions)]
                require(got == want, f"{what}: {got!r} instead of {want!r}")
            else:
                Q.check_access(made, handle, arg, positions, what, ctx, access["seed"])
        else:
            entries_ = [index[k] for k in sorted(index)]
            arg = tuple(entries_)
            if len(entries_) == 1 and access["bare"]:
                arg = entries_[0]
            elif not entries_ and (access["bare"] or n_dims == 0):
                arg = slice(None)
            what = f"{name}[{arg}] of dims {made.dims}"
            Q.check_access(made, view, arg, positions,
                           what + f" origin {made.origin} extent {made.extent}", ctx,
                           access["seed"])
        ctx.label(name, access["how"])
        ctx.nontrivial(bool(index) and any(made.origin))
        if name != "view":
            rejected = [(0,) * (n_dims + 1)]
            if n_dims == 0:
                rejected += [slice(0, 1), slice(None, None, 2), (slice(None),)]
            for too_many in rejected:
                ctx.raises(IndexError, lambda: view[too_many], f"{name}[{too_many}]")


def result_is_scalar(positions):
    return bool(positions) and all(isinstance(p, int) for p in positions)
