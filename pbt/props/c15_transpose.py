"""C15: transposing a quantity preserves meaning and shares data."""
import numpy as np
from hypothesis import strategies as st

from .. import quantities as Q
from ..arrays import first_difference, same
from ..core import require

MEMBERS = {"X_DIMS": ("x", "x_interface"), "Y_DIMS": ("y", "y_interface"),
           "Z_DIMS": ("z", "z_interface")}
GROUPS = {
    "x": "X_DIMS", "x_interface": "X_DIMS", "y": "Y_DIMS", "y_interface": "Y_DIMS",
    "z": "Z_DIMS", "z_interface": "Z_DIMS",
}


@st.composite
def cases(draw, tier):
    n = draw(st.integers(0, 5))
    spec = draw(Q.quantities(min_dims=n, max_dims=n))
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append(
            {
                "order": draw(st.permutations(list(range(n)))),
                "as": [draw(st.sampled_from(["name", "name", "group", "list", "set", "own", "once"]))
                       for _ in range(n)],
                "container": draw(st.sampled_from(["list", "tuple"])),
            }
        )
    bad = draw(st.sampled_from(
        ["missing", "missing_group", "ambiguous", "too_few", "twice", "too_many"]))
    return {"spec": spec, "steps": steps, "bad": bad, "where": draw(st.integers(0, 5))}


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    import fv3gfs.util as util

    with ctx.sut("construction"):
        made = Q.Made(util, case["spec"])
    source = made.quantity
    current, axes = source, list(range(len(made.dims)))

    def entry(dim, how):
        if how == "name":
            return dim
        if how == "group" and dim in GROUPS:
            group = getattr(util, GROUPS[dim])
            if sum(d in made.dims for d in MEMBERS[GROUPS[dim]]) == 1:
                return group
        if how == "list":
            return [dim, "not_a_dimension"]
        if how == "set":
            return {dim, "not_a_dimension"}
        if how == "once":  # an iterable that can be gone through a single time
            return (d for d in [dim, "not_a_dimension"])
        if how == "own":
            return ("other", "names", dim)
        return dim

    def compare(quantity, order, what):
        require(quantity.dims == tuple(made.dims[k] for k in order),
                f"{what}: dims {quantity.dims}")
        require(quantity.origin == tuple(made.origin[k] for k in order),
                f"{what}: origin {quantity.origin}")
        require(quantity.extent == tuple(made.extent[k] for k in order),
                f"{what}: extent {quantity.extent}")
        require(quantity.units == made.quantity.units, f"{what}: units {quantity.units}")
        require(quantity.attrs == source.attrs, f"{what}: attributes {quantity.attrs}")
        want = np.zeros([made.shape[k] for k in order], made.data.dtype)
        for point in np.ndindex(*made.shape):
            want[tuple(point[k] for k in order)] = made.data[point]
        require(same(quantity.data, want),
                lambda: f"{what}: {first_difference(quantity.data, want)}")
        require(quantity.data.size == 0 or np.shares_memory(quantity.data, made.data),
                f"{what}: does not share memory")
        inner = tuple(made.compute[k] for k in order)
        require(same(quantity.view[:], want[inner] if inner else want),
                f"{what}: the view differs from the compute domain")

    for step in case["steps"]:
        target = [current.dims[k] for k in step["order"]]
        request = [entry(d, how) for d, how in zip(target, step["as"])]
        if step["container"] == "tuple":
            request = tuple(request)
        what = f"transpose {current.dims} -> {target} given as {step['as']}"
        axes = [axes[k] for k in step["order"]]
        with ctx.sut(what):
            current = current.transpose(request)
        compare(current, axes, what)
        if list(step["order"]) != sorted(step["order"]):
            ctx.nontrivial()
    compare(source, list(range(len(made.dims))), "the original afterwards")
    if made.data.size:
        # a point named through one is the same point named through the other
        point = tuple(o + e - 1 for o, e in zip(made.origin, made.extent))
        value = np.zeros((), made.data.dtype)[()]
        current.data[tuple(point[k] for k in axes)] = value
        require(made.data[point] == value and source.data[point] == value,
                "a write through the transposed quantity is not seen in the original")
    names = list(made.dims)
    bad, k = case["bad"], case["where"] % max(1, len(names))
    request = list(names)
    if bad == "missing":
        request[k:k + 1] = ["not_a_dimension"]
    elif bad == "missing_group":
        request[k:k + 1] = [("not_a_dimension", "nor_this")]
    elif bad == "ambiguous":
        if len(names) < 2:
            return
        request[k] = tuple(names)
    elif bad == "too_few":
        if not names:
            return
        del request[k]
    elif bad == "twice":
        if len(names) < 2:
            return
        request[k] = request[k - 1]
    elif bad == "too_many":
        if not names:
            return
        request.append(names[k])
    ctx.label("rejected", bad)
    ctx.raises(ValueError, lambda: source.transpose(request),
               f"transpose {names} -> {request}")
