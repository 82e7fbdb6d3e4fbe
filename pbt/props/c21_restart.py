"""C21: opening restart files yields the model state on every rank."""
import copy
import json
import os

import numpy as np
from hypothesis import strategies as st

from .. import collect
from ..arrays import INTERFACE, X_DIMS, Y_DIMS, encode, schedules, seeds
from ..core import HarnessError, LCG, require
from .c22_times import CALENDARS

NEEDS_SCRATCH = True

REQUIRED = ["fv_core.res", "fv_srf_wnd.res", "fv_tracer.res"]
OPTIONAL = ["sfc_data", "phy_data"]
LABELS = ["", "", "20160801.003000", "a", None]
FILE_UNITS = ["none", "", "m", "days", "seconds", "K m**-1", "hours since 2000-01-01"]
TRACERS = ["sphum", "liq_wat", "o3mr", "sgs_tke", "cld_amt"]
# variables without restart metadata: with units they are loaded as they are
STRANGERS = [
    ("lonely", ["yaxis_1", "xaxis_1"]), ("profile", ["zaxis_1"]),
    ("cube", ["zaxis_1", "yaxis_1", "xaxis_1"]), ("plain", ["y", "x"]),
    ("stag", ["y_interface", "x"]), ("level", ["z"]), ("number", []),
]
# the documented standard names of the variables in restart files, with dims and units (a
# copy of fv3gfs/util/restart_properties.yml)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data",
                       "restart_names.json")) as table:
    KNOWN = json.load(table)
TYPES = ["float64", "float64", "float32", "int32"]


@st.composite
def cases(draw, tier):
    known = KNOWN
    counts = {}
    for p in known.values():
        counts[p["restart_name"]] = counts.get(p["restart_name"], 0) + 1
    # a few restart names stand for several standard names: the file does not tell which
    unique = sorted(n for n, p in known.items() if counts[p["restart_name"]] == 1)
    files = REQUIRED + [f for f in OPTIONAL if draw(st.booleans())]
    variables = []

    def variable(kind, name, restart_name, dims):
        variables.append({
            "kind": kind, "name": name, "restart_name": restart_name, "dims": list(dims),
            "file": draw(st.sampled_from(files)),
            "dtype": draw(st.sampled_from(TYPES)),
            "units": draw(st.sampled_from(FILE_UNITS)),
            "record": draw(st.sampled_from([True, True, True, False])),
        })

    three = [n for n in unique if len(known[n]["dims"]) != 2]
    picks = st.one_of(st.sampled_from(unique), st.sampled_from(three))
    for name in draw(st.lists(picks, max_size=6, unique=True)):
        variable("known", name, known[name]["restart_name"], known[name]["dims"])
    for restart_name in draw(st.permutations(TRACERS))[:draw(st.integers(0, 2))]:
        dims = draw(st.sampled_from(
            [["z", "y", "x"], ["z", "y", "x_interface"], ["z_soil", "y", "x"], ["y", "x"]]))
        variable("tracer", f"{restart_name}_mixing_ratio", restart_name, dims)
        variables[-1]["declared"] = draw(st.sampled_from([True, True, False]))
        variables[-1]["tracer_units"] = draw(st.sampled_from(["kg/kg", "", "days"]))
    for name, dims in draw(st.permutations(STRANGERS))[:draw(st.integers(0, 2))]:
        variable("stranger", name, name, dims)
        variables[-1]["has_units"] = draw(st.booleans())
    calendar = draw(st.sampled_from([1, 2, 3, 4]))
    op = st.fixed_dictionaries({
        "filter": st.sampled_from(["none", "none", "some", "some", "empty"]),
        "filter_time": st.booleans(),
        "filter_type": st.sampled_from(["list", "tuple", "set", "generator", "dict"]),
        "picks": seeds,
        "to_state": st.sampled_from(["no", "no", "empty", "some", "some", "mixed"]),
        "holder": collect.holders(),
        "to_time": st.booleans(),
        "bystander": st.booleans(),
    })
    layout = draw(st.sampled_from(
        [[1, 1], [1, 1], [2, 2]] + ([[3, 3]] if tier == "thorough" else [])))
    return {
        "layout": layout, "cells": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
        "nz": draw(st.integers(1, 3)), "nsoil": draw(st.integers(1, 2)),
        "variables": variables, "files": files,
        "coupler": draw(st.sampled_from([True, True, True, False])),
        "calendar": calendar,
        "time": [draw(st.sampled_from([1, 1900, 2016, 9999])), draw(st.integers(1, 12)),
                 draw(st.integers(1, 28)), draw(st.integers(0, 23)),
                 draw(st.integers(0, 59)), draw(st.integers(0, 59))],
        "label": draw(st.sampled_from(LABELS)),
        "decoy": draw(st.booleans()),
        "axes": draw(st.booleans()),
        "where": draw(st.sampled_from(["path", "path", "slash", "file", "memory"])),
        "missing": draw(st.sampled_from([None] * 6 + [0, 1, 2])),
        "ops": draw(st.lists(op, min_size=1, max_size=2)),
        "order": draw(seeds), "sched": draw(schedules()),
    }


def strategy(tier):
    return cases(tier)


class Restart:
    """What the files of each tile hold."""

    def __init__(self, case):
        self.case = case
        self.ny = case["cells"][0] * case["layout"][0]
        self.nx = case["cells"][1] * case["layout"][1]

    def length(self, dim):
        if dim in Y_DIMS:
            return self.ny + (dim in INTERFACE)
        if dim in X_DIMS:
            return self.nx + (dim in INTERFACE)
        return {"z": self.case["nz"], "z_interface": self.case["nz"] + 1,
                "z_soil": self.case["nsoil"], "zaxis_1": self.case["nz"],
                "yaxis_1": self.ny, "xaxis_1": self.nx}[dim]

    def values(self, k, tile, salt=0):
        var = self.case["variables"][k]
        shape = tuple(self.length(d) for d in var["dims"])
        n = int(np.prod(shape, dtype=int))
        ids = np.arange(n).reshape(shape) + 1000 * (tile + 6 * (k + 20 * salt))
        return encode(ids, var["dtype"])

    def part(self, k, rank):
        """Index of a rank's share in the tile's array."""
        ly, lx = self.case["layout"]
        row, column = divmod(rank % (ly * lx), lx)
        cy, cx = self.case["cells"]
        index = []
        for d in self.case["variables"][k]["dims"]:
            if d in Y_DIMS:
                index.append(slice(row * cy, (row + 1) * cy + (d in INTERFACE)))
            elif d in X_DIMS:
                index.append(slice(column * cx, (column + 1) * cx + (d in INTERFACE)))
            else:
                index.append(slice(None))
        return tuple(index)

    def write(self, fs, dirname, label, salt):
        from io import BytesIO

        from scipy.io import netcdf_file

        case = self.case
        prefix = f"{label}." if label else ""
        for tile in range(6):
            for name in case["files"]:
                if salt == 0 and case["missing"] is not None \
                        and name == REQUIRED[case["missing"]]:
                    continue
                target = BytesIO()
                f = netcdf_file(target, "w", version=2)
                f.createDimension("Time", 1)
                f.createVariable("Time", "f8", ("Time",))[:] = [1.0]
                f.variables["Time"].units = "time level"
                lengths = {}

                def axis(var, dim):
                    # names as the Fortran model chooses them, one per length
                    if var["kind"] == "stranger":
                        wanted = dim
                    else:
                        letter = {"x": "x", "y": "y"}.get(dim[0], "z")
                        number = 1
                        while lengths.get(f"{letter}axis_{number}",
                                          self.length(dim)) != self.length(dim):
                            number += 1
                        wanted = f"{letter}axis_{number}"
                    if wanted not in lengths:
                        lengths[wanted] = self.length(dim)
                        f.createDimension(wanted, lengths[wanted])
                        if case["axes"]:
                            f.createVariable(wanted, "f8", (wanted,))[:] = np.arange(
                                lengths[wanted]) + 1.0
                            f.variables[wanted].units = "none"
                    return wanted

                inside = [k for k, v in enumerate(case["variables"]) if v["file"] == name]
                # the raw axes of strangers come first, they have no choice
                inside.sort(key=lambda k: case["variables"][k]["kind"] != "stranger")
                raw = [k for k in inside if case["variables"][k]["kind"] == "stranger"]
                rest = [k for k in inside if k not in raw]
                for k in raw + LCG(case["order"] + tile).shuffled(rest):
                    var = case["variables"][k]
                    dims = [axis(var, d) for d in var["dims"]]
                    values = self.values(k, tile, salt)
                    if var["record"]:
                        dims, values = ["Time"] + dims, values[None]
                    v = f.createVariable(var["restart_name"], values.dtype.str[1:], dims)
                    if dims:
                        v[:] = values
                    else:
                        v.data[...] = values
                    v.long_name = var["restart_name"]
                    if var.get("has_units", True):
                        v.units = var["units"].encode("utf-8")
                f.flush()
                with fs.open(os.path.join(dirname, f"{prefix}{name}.tile{tile + 1}.nc"),
                             "wb") as out:
                    out.write(target.getvalue())
                f.close()
        if case["coupler"] or salt:
            year = case["time"][0] if salt == 0 else 1234
            text = (f"{case['calendar']:6d}        (Calendar: julian=2)\n"
                    "  1000     1     1     0     0     0        Model start time\n"
                    + f"{year:6d}" + "".join(f"{x:6d}" for x in case["time"][1:])
                    + "        Current model time\n")
            with fs.open(os.path.join(dirname, f"{prefix}coupler.res"), "w") as out:
                out.write(text)


def check(case, ctx):
    import fsspec
    import fv3gfs.util as util

    try:  # only to see whether calls change it
        from fv3gfs.util._properties import RESTART_PROPERTIES as table
    except ImportError:
        table = None
    from ..sim import world_from

    restart = Restart(case)
    label = case["label"]
    if case["where"] == "memory":
        fs, base = fsspec.filesystem("memory"), f"memory://pbt{os.getpid()}/restart"
    else:
        fs, base = fsspec.filesystem("file"), os.path.join(ctx.scratch, "restart")
        os.mkdir(base)
    dirname = {"slash": base + "/", "file": "file://" + base}.get(case["where"], base)
    layout = tuple(case["layout"])
    per_tile = layout[0] * layout[1]
    table_before = copy.deepcopy(table)
    tracers = {
        v["name"]: {"dims": v["dims"], "units": v["tracer_units"],
                    "restart_name": v["restart_name"]}
        for v in case["variables"] if v["kind"] == "tracer" and v["declared"]
    }
    tracers_before = copy.deepcopy(tracers)
    # name, dims, units under which each variable is loaded
    loaded = {}
    for k, v in enumerate(case["variables"]):
        if v["kind"] == "known":
            loaded[v["name"]] = (k, v["dims"], KNOWN[v["name"]]["units"])
        elif v["kind"] == "tracer" and v["declared"]:
            loaded[v["name"]] = (k, v["dims"], v["tracer_units"])
        elif v["kind"] == "stranger" and v["has_units"]:
            loaded[v["name"]] = (k, v["dims"], v["units"])
        elif v["kind"] == "tracer":
            loaded[v["restart_name"]] = (k, None, v["units"])
    moment = CALENDARS[case["calendar"]][0](*case["time"])
    time_present = case["coupler"]

    def program(comm):
        rank = comm.Get_rank()
        tile = rank // per_tile
        communicator = util.CubedSphereCommunicator(
            comm, util.CubedSpherePartitioner(util.TilePartitioner(layout)))
        for step, op in enumerate(case["ops"]):
            what = f"open {step} on rank {rank}"
            arguments = {}
            chosen = set(loaded)
            want_time = time_present
            if op["filter"] != "none":
                chooser = LCG(op["picks"])
                chosen = set() if op["filter"] == "empty" else {
                    n for n in sorted(loaded) if chooser.next(2)}
                names = sorted(chosen) + ["unknown"]
                want_time = time_present and op["filter_time"]
                if op["filter_time"]:
                    names.insert(chooser.next(len(names) + 1), "time")
                arguments["only_names"] = {
                    "list": list, "tuple": tuple, "set": set, "dict": dict.fromkeys,
                    "generator": lambda ns: (n for n in ns)}[op["filter_type"]](names)
            if label != "":
                arguments["label"] = label
            if tracers:
                arguments["tracer_properties"] = tracers
            held, to_state, before = {}, None, {}
            bystander = None
            if op["to_state"] != "no":
                to_state = {}
                for n in sorted(loaded):
                    k, dims, units = loaded[n]
                    if dims is None or op["to_state"] == "empty" or \
                            (op["to_state"] == "mixed" and (rank + k) % 2):
                        continue
                    values = restart.values(k, tile)[restart.part(k, rank)]
                    held[n] = collect.Held(util, dims, values.shape, values.dtype, units,
                                           op["holder"], 5 * k + rank)
                    to_state[n] = held[n].quantity
                if op["bystander"]:
                    bystander = collect.Held(util, ["x"], [3], "float64", "m",
                                             op["holder"], 3)
                    to_state["bystander"] = bystander.quantity
                if op["to_time"]:
                    to_state["time"] = CALENDARS[2][0](1999, 1, 1)
                before = dict(to_state)
                arguments["to_state"] = to_state
            if case["missing"] is not None:
                if per_tile == 1:
                    ctx.raises(
                        FileNotFoundError,
                        lambda: util.open_restart(dirname, communicator, **arguments),
                        f"{what} without {REQUIRED[case['missing']]}")
                continue
            with ctx.sut(what):
                got = util.open_restart(dirname, communicator, **arguments)
            if to_state is not None:
                require(got is to_state, f"{what}: another state was returned")
            expected = chosen | set(before) | ({"time"} if want_time else set())
            require(set(got) == expected, f"{what}: entries {sorted(got)}, expected "
                    f"{sorted(expected)}")
            if want_time:
                require(type(got["time"]) is type(moment) and got["time"] == moment,
                        f"{what}: time {got['time']!r}, recorded {moment!r}")
            elif "time" in before:
                require(got["time"] is before["time"], f"{what}: time was replaced")
            if bystander is not None:
                require(got["bystander"] is before["bystander"], f"{what}: bystander")
                bystander.require_unchanged(f"{what}: a variable not in the files")
            for n in sorted(set(loaded) & set(got)):
                k, dims, units = loaded[n]
                where = f"{what}: variable {n}"
                if n not in chosen:
                    require(got[n] is before[n], f"{where} was replaced")
                    held[n].require_unchanged(f"{where} is not selected")
                    continue
                values = restart.values(k, tile)
                if dims is None:
                    dims = got[n].dims  # undeclared: the raw axes, not partitioned
                    require(len(dims) == values.ndim and not any(
                        d in X_DIMS + Y_DIMS for d in dims), f"{where}: dims {dims}")
                else:
                    values = values[restart.part(k, rank)]
                collect.check_received(
                    held.get(n), got[n], n in before, dims, values.shape, values.dtype,
                    units, values, where)
        return True

    try:
        try:
            restart.write(fs, base, label, 0)
            if case["decoy"]:
                restart.write(fs, base, "20990101.000000" if not label else "", 1)
        except Exception as err:  # noqa: BLE001
            raise HarnessError(f"writing the restart files failed: {err!r}")
        world = world_from(6 * per_tile, case["sched"])
        done = world.run(program)
    finally:
        if case["where"] == "memory":
            for name in list(fs.store):
                if name.startswith(f"/pbt{os.getpid()}/"):
                    del fs.store[name]
    require(all(done), "not every rank finished")
    require(world.leftovers() == 0, "messages were never received")
    require(table == table_before, "the table of restart properties was changed")
    require(tracers == tracers_before, "the given tracer properties were changed")
    ctx.label("layout", "x".join(map(str, layout)))
    ctx.label("where", case["where"])
    ctx.label("label", bool(label))
    ctx.label("missing file", case["missing"] is not None)
    for op in case["ops"]:
        ctx.label("filter", op["filter"])
        ctx.label("to_state", op["to_state"])
    for v in case["variables"]:
        ctx.label("variable", v["kind"])
    ctx.nontrivial(case["missing"] is None and len(loaded) > 1)
