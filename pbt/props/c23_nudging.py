"""C23: nudging relaxes exactly the chosen variables."""
import copy
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st

from ..arrays import MEMORY, first_difference, filled, rarely_large, same, seeds
from ..core import LCG, require

DIMS = ["x", "x_interface", "y", "y_interface", "z", "years"]
NAMES = ["air_temperature", "x_wind", "specific_humidity", "p", "Z", "time_step", "", "A b",
         "p_tendency"]
UNITS = ["degK", "m/s", "", "kg/kg", "1"]


def axis():
    return st.fixed_dictionaries({"origin": st.integers(0, 3), "end": st.integers(0, 2)})


@st.composite
def cases(draw, tier):
    variables = []
    for name in draw(st.permutations(NAMES))[:draw(st.integers(1, 4))]:
        dims = list(draw(st.permutations(DIMS))[:draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3]))])
        variables.append({
            "name": name, "dims": dims,
            "extent": rarely_large(draw, [draw(st.integers(1, 4)) for _ in dims]),
            "state": [draw(axis()) for _ in dims],
            "reference": [draw(axis()) for _ in dims],
            "memory": [draw(st.sampled_from(MEMORY)) for _ in range(2)],
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
            "units": draw(st.sampled_from(UNITS)),
            "timescale": draw(st.sampled_from(
                [None, [0, 1, 0], [0, 900, 0], [0, 3600, 0], [2, 0, 0], [0, 0, 250000],
                 [1, 1, 1], [0, 7, 500000], [400, 0, 0]])),
            "in_reference": draw(st.sampled_from([True] * 9 + [False])),
            "seed": draw(seeds),
        })
    return {
        "variables": variables,
        "timestep": draw(st.sampled_from(
            [[0, 900, 0], [0, 1, 0], [0, 0, 500000], [1, 0, 0], [0, 0, 0], [0, 225, 0]])),
        "missing": draw(st.sampled_from([None] * 9 + ["both", "both"])),
        "time": draw(st.booleans()),
        "order": draw(seeds),
        "steps": draw(st.integers(1, 3)),
        "special": draw(st.sampled_from([None, None, None, "nan", "inf", "equal"])),
    }


def strategy(tier):
    return cases(tier)


def values(shape, dtype, seed):
    rng = LCG(seed)
    n = int(np.prod(shape, dtype=int))
    out = np.array([(rng.next(2000001) - 1000000) / 1024.0 for _ in range(n)])
    return out.reshape(shape).astype(dtype)


class Variable:
    def __init__(self, util, spec, which, special):
        k = {"state": 0, "reference": 1}[which]
        axes = spec[which]
        self.extent = tuple(spec["extent"])
        self.origin = tuple(a["origin"] for a in axes)
        self.shape = tuple(a["origin"] + e + a["end"] for a, e in zip(axes, self.extent))
        content = values(self.shape, spec["dtype"], spec["seed"] + 17 * k)
        if special == "equal" and k == 1:
            content[...] = 0
        if special in ("nan", "inf") and content.size and k == 1:
            content.reshape(-1)[spec["seed"] % content.size] = float(special)
        self.data = filled(content, spec["dtype"], spec["memory"][k])
        self.quantity = util.Quantity(
            self.data, dims=spec["dims"], units=spec["units"], origin=self.origin,
            extent=self.extent)
        self.compute = tuple(slice(o, o + e) for o, e in zip(self.origin, self.extent))
        self.before = self.data.copy()


def close(got, want, dtype, scale):
    """Equal up to a few roundings of the dtype."""
    eps = np.finfo(dtype).eps
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    with np.errstate(all="ignore"):
        ok = np.abs(got - want) <= 6 * eps * (np.abs(scale) + np.abs(want))
        ok |= (got == want) | (np.isnan(got) & np.isnan(want))
    return bool(np.all(ok))


def check(case, ctx):
    import fv3gfs.util as util

    rng = LCG(case["order"])
    specs = {v["name"]: v for v in case["variables"]}
    names = list(specs)
    state_vars = {n: Variable(util, specs[n], "state", case["special"]) for n in names}
    ref_vars = {n: Variable(util, specs[n], "reference", case["special"]) for n in names
                if specs[n]["in_reference"]}
    state = {n: state_vars[n].quantity for n in rng.shuffled(names)}
    reference = {n: ref_vars[n].quantity for n in rng.shuffled(list(ref_vars))}
    scales = {
        n: timedelta(*specs[n]["timescale"]) for n in rng.shuffled(names)
        if specs[n]["timescale"] is not None}
    if case["missing"]:
        scales["not_there"] = timedelta(hours=1)
        reference["not_there"] = copy.deepcopy(reference[sorted(ref_vars)[0]]) if ref_vars \
            else copy.deepcopy(state[names[0]])
        if case["order"] % 2:
            scales = {n: scales[n] for n in reversed(list(scales))}
    if case["time"]:
        state["time"] = reference["time"] = "a time"
    timestep = timedelta(*case["timestep"])
    bad = [n for n in scales if n not in state or n not in reference]
    state_objects = dict(state)
    scales_before = dict(scales)

    def untouched(what, allow=()):
        require(scales == scales_before, f"{what}: the timescales changed")
        require(list(state) == list(state_objects) and all(
            state[n] is state_objects[n] for n in state), f"{what}: the state dictionary changed")
        require(set(reference) - {"time", "not_there"} == set(ref_vars),
                f"{what}: the reference dictionary changed")
        for n, var in ref_vars.items():
            require(same(var.data, var.before), f"{what}: the reference of {n} changed")
        for n, var in state_vars.items():
            require(state[n].data is var.data, f"{what}: the data of {n} was replaced")
            require(tuple(state[n].dims) == tuple(specs[n]["dims"])
                    and state[n].units == specs[n]["units"]
                    and tuple(state[n].origin) == var.origin
                    and tuple(state[n].extent) == var.extent,
                    f"{what}: the metadata of {n} changed")
            if n in allow:
                outside = var.data.copy()
                outside[var.compute] = var.before[var.compute]
                require(same(outside, var.before),
                        lambda: f"{what}: {n} changed outside of its compute domain: "
                        + first_difference(outside, var.before))
            else:
                require(same(var.data, var.before), f"{what}: {n} changed")

    if bad:
        ctx.raises(
            (KeyError, ValueError),
            lambda: util.apply_nudging(state, reference, scales, timestep), "apply_nudging")
        untouched("rejected")
        ctx.raises(
            (KeyError, ValueError),
            lambda: util.get_nudging_tendencies(state, reference, scales),
            "get_nudging_tendencies")
        untouched("rejected")
        ctx.label("rejected")
        return

    def check_tendencies(tendencies, what):
        require(isinstance(tendencies, dict) and set(tendencies) == set(scales),
                f"{what}: tendencies of {sorted(tendencies)}, timescales of {sorted(scales)}")
        for n, tendency in tendencies.items():
            var, ref = state_vars[n], ref_vars[n]
            a = var.before[var.compute].astype(np.float64)
            b = ref.before[ref.compute].astype(np.float64)
            seconds = scales[n].total_seconds()
            with np.errstate(all="ignore"):
                want = (b - a) / seconds
                scale = (np.abs(a) + np.abs(b)) / seconds
            require(tuple(tendency.dims) == tuple(specs[n]["dims"]), f"{what}: dims of {n}")
            require(tendency.units == specs[n]["units"] + " s^-1",
                    f"{what}: units of {n} are {tendency.units!r}")
            got = np.asarray(tendency.view[:])
            require(got.shape == var.extent, f"{what}: {n} has shape {got.shape}")
            require(not got.ndim or got.dtype == np.dtype(specs[n]["dtype"]),
                    f"{what}: {n} has dtype {tendency.data.dtype}")
            require(close(got, want, specs[n]["dtype"], scale),
                    lambda: f"{what}: {n} tendency {got.reshape(-1)[:4]} instead of "
                    f"{want.reshape(-1)[:4]}")
            require(not np.shares_memory(tendency.data, var.data)
                    and not np.shares_memory(tendency.data, ref.data),
                    f"{what}: tendency of {n} shares memory with a state")

    old = []
    for step in range(case["steps"]):
        what = f"step {step}: get_nudging_tendencies"
        with ctx.sut(what):
            with np.errstate(all="ignore"):
                tendencies = util.get_nudging_tendencies(state, reference, scales)
        check_tendencies(tendencies, what)
        untouched(what)
        what = f"step {step}: apply_nudging over {timestep}"
        with ctx.sut(what):
            with np.errstate(all="ignore"):
                tendencies = util.apply_nudging(state, reference, scales, timestep)
        check_tendencies(tendencies, what)
        untouched(what, allow=set(scales))
        seconds = timestep.total_seconds()
        for n, tendency in tendencies.items():
            var, ref = state_vars[n], ref_vars[n]
            a = var.before[var.compute].astype(np.float64)
            b = ref.before[ref.compute].astype(np.float64)
            ratio = seconds / scales[n].total_seconds()
            with np.errstate(all="ignore"):
                want = a + (b - a) * ratio
                scale = np.abs(a) + (np.abs(a) + np.abs(b)) * ratio
            got = var.data[var.compute]
            require(close(got, want, specs[n]["dtype"], scale),
                    lambda: f"{what}: {n} became {got.reshape(-1)[:4]} instead of "
                    f"{want.reshape(-1)[:4]}")
            var.before = var.data.copy()
        for kept, copies in old:
            for n in kept:
                require(same(kept[n].data, copies[n]), f"{what}: an earlier tendency changed")
        old.append((tendencies, {n: t.data.copy() for n, t in tendencies.items()}))
    for v in case["variables"]:
        ctx.label("ndim", len(v["dims"]))
    ctx.label("nudged", len(scales))
    ctx.nontrivial(any(
        any(a["origin"] or a["end"] for a in v["state"] + v["reference"])
        for v in case["variables"] if v["name"] in scales))
