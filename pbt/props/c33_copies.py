"""C33: copies and pickles of quantities and states are faithful, deep ones independent."""
import copy
import dataclasses
import datetime
import pickle

import cftime
import numpy as np
from hypothesis import strategies as st

from ..arrays import MEMORY, encode, filled, first_difference, same
from ..core import LCG, require
from ..fields import SCALAR_DTYPES

DIMS = ["x", "y_interface", "z", "years", "x_interface"]
NAMES = ["a", "air_temperature", "Z", "x_wind", "time_step"]


@st.composite
def quantities(draw):
    nd = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))
    return {
        "dims": list(draw(st.permutations(DIMS)))[:nd],
        "extent": [draw(st.integers(1, 3)) for _ in range(nd)],
        "before": [draw(st.integers(0, 2)) for _ in range(nd)],
        "after": [draw(st.integers(0, 2)) for _ in range(nd)],
        "dtype": draw(st.sampled_from(SCALAR_DTYPES)),
        "memory": draw(st.sampled_from(MEMORY)),
        "units": draw(st.sampled_from(["m", "", "kg kg**-1", "\u00b5m", " s "])),
    }


def strategy(tier):
    return st.fixed_dictionaries({
        "quantities": st.lists(quantities(), min_size=1, max_size=3),
        # entries of the state that hold the same quantity
        "alias": st.booleans(),
        "how": st.sampled_from(["deepcopy", "deepcopy", "pickle 2", "pickle 5", "copy"]),
        "what": st.sampled_from(["state", "state", "quantity", "metadata"]),
        # what the metadata are given besides
        "backend": st.sampled_from([None, "numpy", "gtx86"]),
        "time": st.sampled_from([None, "cftime", "datetime"]),
        "transposed": st.booleans(),
        "viewed": st.booleans(),
        "writes": st.lists(st.tuples(
            st.integers(0, 2), st.sampled_from(["view", "data", "northeast", "interior"]),
            st.sampled_from(["old", "new"]), st.integers(0, 2 ** 16)), max_size=4),
    })


class Made:
    """A quantity and a model of what it holds."""

    def __init__(self, quantity, content):
        self.quantity, self.content = quantity, content

    def check(self, what, like=None):
        q = self.quantity
        compute = tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))
        require(same(np.ascontiguousarray(q.data), np.ascontiguousarray(self.content)),
                lambda: f"{what}: data: {first_difference(q.data, self.content)}")
        seen = np.asarray(q.view[:])
        require(same(np.ascontiguousarray(seen), np.ascontiguousarray(self.content[compute])),
                lambda: f"{what}: view: {first_difference(seen, self.content[compute])}")
        if seen.size:
            require(np.shares_memory(seen, q.data), f"{what}: the view is of other memory")
        if like is not None:
            for name in ("dims", "origin", "extent", "units", "gt4py_backend", "attrs"):
                require(getattr(q, name) == getattr(like, name)
                        and type(getattr(q, name)) is type(getattr(like, name)),
                        f"{what}: {name} {getattr(q, name)!r}, was {getattr(like, name)!r}")
            require(q.metadata == like.metadata, f"{what}: metadata {q.metadata}")
            require(q.np is like.np, f"{what}: np {q.np}")


def transfer(how, value):
    if how == "deepcopy":
        return copy.deepcopy(value)
    if how == "copy":
        return copy.copy(value)
    return pickle.loads(pickle.dumps(value, protocol=int(how.split()[1])))


def write(made, face, seed):
    """Through one of the quantity's faces to one point; the model follows."""
    q, rng = made.quantity, LCG(seed)
    at = tuple(rng.next(e) for e in q.extent)
    where = tuple(o + k for o, k in zip(q.origin, at))
    value = encode(np.array(1000 + seed % 977), made.content.dtype)[()]
    if not q.dims:
        q.data[...] = value
        made.content[...] = value
        return
    if face == "view":
        q.view[at] = value
    elif face == "data":
        where = tuple(rng.next(n) for n in made.content.shape)
        q.data[where] = value
    else:
        anchored = []
        for dim, k, e in zip(q.dims, at, q.extent):
            from_end = (dim in ("x", "x_interface", "y", "y_interface")
                        and face == "northeast")
            anchored.append(k - e if from_end else k)
        if face == "interior":
            # offsets of slices: start from the first, end from the last compute point
            index = tuple(slice(k, k + 1 - e) for k, e in zip(at, q.extent))
            q.view.interior[index] = value
        else:
            q.view.northeast[tuple(anchored)] = value
    made.content[where] = value


def check(case, ctx):
    import fv3gfs.util as util

    originals, state = [], {}
    for k, spec in enumerate(case["quantities"]):
        shape = [b + e + a for b, e, a in zip(spec["before"], spec["extent"], spec["after"])]
        values = encode(np.arange(int(np.prod(shape, dtype=int))).reshape(shape) + 50 * k,
                        spec["dtype"])
        array = filled(values, spec["dtype"], spec["memory"])
        with ctx.sut("construction"):
            q = util.Quantity(array, dims=spec["dims"], units=spec["units"],
                              origin=spec["before"], extent=spec["extent"])
            if case["transposed"]:
                q = q.transpose(list(q.dims)[::-1])
                values = values.transpose()
            if case["viewed"]:
                q.view[:]
        originals.append(Made(q, np.array(values)))
        state[NAMES[k]] = q
    if case["time"] == "cftime":
        state["time"] = cftime.DatetimeNoLeap(2016, 2, 28, 3, 4, 5)
    elif case["time"] == "datetime":
        state["time"] = datetime.datetime(2016, 2, 29, 3, 4, 5)
    if case["alias"]:
        state["alias"] = state[NAMES[0]]
    how, deep = case["how"], case["how"] != "copy"
    with ctx.sut(f"{how} of a {case['what']}"):
        if case["what"] == "metadata":
            for o in originals:
                metadata = dataclasses.replace(o.quantity.metadata,
                                               gt4py_backend=case["backend"])
                got = transfer(how, metadata)
                for field in dataclasses.fields(metadata):
                    require(getattr(got, field.name) == getattr(metadata, field.name),
                            lambda: f"{how}: {field.name} {getattr(got, field.name)!r} "
                            f"of the metadata was {getattr(metadata, field.name)!r}")
                require(got == metadata and got.np is o.quantity.np
                        and got.dtype == o.quantity.data.dtype
                        and got.dim_lengths == metadata.dim_lengths,
                        f"{how}: metadata {got}")
            copies = None
        elif case["what"] == "quantity":
            copies = [transfer(how, o.quantity) for o in originals]
        else:
            moved = transfer(how, state)
            require(set(moved) == set(state), f"{how}: names {sorted(moved)}")
            if case["time"]:
                require(moved["time"] == state["time"]
                        and type(moved["time"]) is type(state["time"]),
                        f"{how}: time {moved['time']}")
            if case["alias"]:
                require(moved["alias"] is moved[NAMES[0]], f"{how}: two entries that were one")
            copies = [moved[NAMES[k]] for k in range(len(originals))]
    ctx.label("how", how)
    ctx.label("what", case["what"])
    if copies is None:
        return
    if deep:
        new = [Made(q, o.content.copy()) for q, o in zip(copies, originals)]
        for k, (m, o) in enumerate(zip(new, originals)):
            require(not np.shares_memory(m.quantity.data, o.quantity.data),
                    f"{how}: quantity {k} shares memory with the original")
    else:  # the same memory
        new = [Made(q, o.content) for q, o in zip(copies, originals)]
    for k, (m, o) in enumerate(zip(new, originals)):
        m.check(f"{how}: quantity {k} {o.quantity.dims}", o.quantity)
    for i, face, which, seed in case["writes"]:
        target = (originals if which == "old" else new)[i % len(new)]
        what = f"{how}: after writing through {face} of the {which} quantity {i % len(new)}"
        with ctx.sut(what):
            write(target, face, seed)
        for k, (m, o) in enumerate(zip(new, originals)):
            m.check(f"{what}: copy {k}")
            o.check(f"{what}: original {k}")
    ctx.nontrivial(bool(case["writes"]))
