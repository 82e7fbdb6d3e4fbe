"""Generated histories of snapshots stored in Zarr by simulated ranks."""
import collections.abc
import datetime
import os

import cftime
import numpy as np
from hypothesis import strategies as st

from .arrays import (INTERFACE, MEMORY, X_DIMS, Y_DIMS, encode, filled, first_difference,
                     rarely_large, same, seeds)
from .core import HarnessError, LCG, require
from .fields import SCALAR_DTYPES

NAMES = ["a", "air_temperature", "Z", "x_wind", "u", "time_step", "zz", "A b", "x", "times", "aa", "_w"]
UNITS = ["m", "", "K", "kg kg**-1", "degrees_north", "\u00b5m"]
OTHER = ["z", "z_interface", "z_soil", "tracer", "years", "x_wind"]
CALENDARS = {
    "julian": cftime.DatetimeJulian, "360_day": cftime.Datetime360Day,
    "noleap": cftime.DatetimeNoLeap, "gregorian": cftime.DatetimeGregorian,
    "proleptic": cftime.DatetimeProlepticGregorian,
}

STORES = {}


def _store(number):
    return STORES[number]


class SharedStore(collections.abc.MutableMapping):
    """A key-value store that all ranks see; every access may switch ranks."""

    def __init__(self, world=None):
        self.items_, self.world, self.log = {}, world, []
        self.number = len(STORES) + 1
        while self.number in STORES:
            self.number += 1
        STORES[self.number] = self

    def __reduce__(self):
        return (_store, (self.number,))

    def __deepcopy__(self, memo):
        return self

    def _turn(self):
        if self.world is not None and self.world._me() is not None:
            self.world.yield_()
            return self.world._me()
        return None

    def __getitem__(self, key):
        self._turn()
        return self.items_[key]

    def __setitem__(self, key, value):
        me = self._turn()
        self.log.append((me, "set", key))
        self.items_[key] = bytes(value) if not isinstance(value, bytes) else value

    def __delitem__(self, key):
        me = self._turn()
        self.log.append((me, "del", key))
        del self.items_[key]

    def __contains__(self, key):
        self._turn()
        return key in self.items_

    def __iter__(self):
        return iter(list(self.items_))

    def __len__(self):
        return len(self.items_)


def rank_axis():
    return st.fixed_dictionaries({"origin": st.integers(0, 2), "end": st.integers(0, 2)})


@st.composite
def variables(draw, n_max, dtypes=SCALAR_DTYPES):
    out = []
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, n_max))]
    if draw(st.integers(0, 23)) == 23:  # as many as a model has
        names = [f"tracer_{k}" for k in range(draw(st.integers(10, 20)))] + list(names)
    for name in names:
        kind = draw(st.sampled_from(["yx", "yx", "yx", "yx", "y", "x", ""]))
        dims = []
        if "y" in kind:
            dims.append(draw(st.sampled_from(Y_DIMS)))
        if "x" in kind:
            dims.append(draw(st.sampled_from(X_DIMS)))
        dims += draw(st.permutations(OTHER))[:draw(st.sampled_from([0, 0, 1, 1, 2]))]
        dims = list(draw(st.permutations(dims)))
        out.append({
            "name": name, "dims": dims,
            "axes": [draw(rank_axis()) for _ in dims],
            "dtype": draw(st.sampled_from(dtypes)),
            "units": draw(st.sampled_from(UNITS)),
            "memory": draw(st.sampled_from(MEMORY)),
            "vary_halo": draw(st.booleans()),
        })
    return out


@st.composite
def grids(draw, tier, max_side=2):
    return {
        "layout": draw(st.sampled_from(
            [[1, 1], [1, 2], [2, 1], [2, 2]] + ([[1, 3], [3, 2]] if tier == "thorough" else [])
            if max_side == 2 else [[1, 1], [1, 2], [2, 1], [2, 2], [3, 2], [1, 3]])),
        "cells": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
        "lengths": rarely_large(
            draw, [draw(st.sampled_from([0] + [1, 2, 3] * 5)) for _ in OTHER], 3),
    }


@st.composite
def times(draw, n):
    return {
        "calendar": draw(st.sampled_from(sorted(CALENDARS))),
        "start": [draw(st.sampled_from([1, 1582, 1900, 2010, 2016, 9000])),
                  draw(st.integers(1, 12)), draw(st.integers(1, 28)),
                  draw(st.integers(0, 23)), draw(st.integers(0, 59)),
                  draw(st.integers(0, 59)), draw(st.sampled_from([0, 0, 1, 500000]))],
        "steps": [draw(st.sampled_from([900, 3600, 1, 86400 * 30, 0.5, 225, 86400 * 366 * 5]))
                  for _ in range(n - 1)],
    }


class Snapshots:
    """Global fields, and each rank's states made from them."""

    def __init__(self, util, case):
        self.util = util
        self.layout = tuple(case["layout"])
        self.cells = case["cells"]
        self.lengths = dict(zip(OTHER, case["lengths"]))
        self.variables = case["variables"]
        self.partitioner = util.CubedSpherePartitioner(util.TilePartitioner(self.layout))
        self.n_ranks = 6 * self.layout[0] * self.layout[1]
        cls = CALENDARS[case["times"]["calendar"]]
        start = case["times"]["start"]
        if start[0] == 1582 and case["times"]["calendar"] == "gregorian":
            start = [1583] + start[1:]
        self.times = [cls(*start)]
        steps = case["times"]["steps"]
        for k in range(case["n"] - 1):
            step = steps[k % len(steps)]
            self.times.append(self.times[-1] + datetime.timedelta(seconds=step))
        self.calendar = self.times[0].calendar

    def length(self, dim, per_tile):
        for k, group in enumerate((Y_DIMS, X_DIMS)):
            if dim in group:
                cells = self.cells[k] * (self.layout[k] if per_tile else 1)
                return cells + int(dim in INTERFACE)
        return self.lengths[dim]

    def tile_shape(self, spec):
        return tuple(self.length(d, True) for d in spec["dims"])

    def field(self, spec, t, tile):
        shape = self.tile_shape(spec)
        size = int(np.prod(shape, dtype=int))
        salt = sum(map(ord, spec["name"])) % 97
        ids = np.arange(size).reshape(shape) + size * (tile + 6 * t) + salt
        return encode(ids, spec["dtype"])

    def rank_slices(self, spec, rank):
        """Where a rank's compute domain lies in its tile."""
        row, col = divmod(rank % (self.layout[0] * self.layout[1]), self.layout[1])
        out = []
        for d in spec["dims"]:
            if d in Y_DIMS:
                out.append(slice(row * self.cells[0],
                                 (row + 1) * self.cells[0] + int(d in INTERFACE)))
            elif d in X_DIMS:
                out.append(slice(col * self.cells[1],
                                 (col + 1) * self.cells[1] + int(d in INTERFACE)))
            else:
                out.append(slice(None))
        return tuple(out)

    def quantity(self, spec, t, rank, units=None):
        tile = rank // (self.layout[0] * self.layout[1])
        part = self.field(spec, t, tile)[self.rank_slices(spec, rank)]
        extra = (rank + t) % 2 if spec["vary_halo"] else 0
        origin = [a["origin"] + extra for a in spec["axes"]]
        shape = [o + e + a["end"] for o, e, a in zip(origin, part.shape, spec["axes"])]
        ids = np.arange(int(np.prod(shape, dtype=int))).reshape(shape) * 3 + 50021 + rank
        whole = np.asarray(encode(ids, spec["dtype"]))
        whole[tuple(slice(o, o + e) for o, e in zip(origin, part.shape))] = part
        data = filled(whole, spec["dtype"], spec["memory"])
        return self.util.Quantity(
            data, dims=spec["dims"], units=spec["units"] if units is None else units,
            origin=origin, extent=part.shape)

    def state(self, t, rank, seed=0):
        names = LCG(seed * 31 + rank * 7 + t).shuffled(self.variables)
        out = {s["name"]: self.quantity(s, t, rank) for s in names}
        out["time"] = self.times[t]
        return dict(LCG(seed + rank).shuffled(list(out.items())))


def copies(state):
    return {n: q.data.copy() for n, q in state.items() if n != "time"}


def unchanged(state, saved, names, what):
    require(set(state) == names, f"{what}: the state dictionary changed")
    for n, before in saved.items():
        require(same(state[n].data, before), f"{what}: storing changed {n}")


def verify(snapshots, store, n_times, what, tiles=range(6), rank=None, path=None):
    """The store holds exactly the first n_times snapshots."""
    import zarr

    group = zarr.open_group(store, mode="r", path=path)
    found = sorted(name for name, _ in group.arrays())
    wanted = sorted([s["name"] for s in snapshots.variables] + ["time"])
    require(found == wanted, f"{what}: stored arrays {found}, wanted {wanted}")
    for spec in snapshots.variables:
        name = spec["name"]
        array = group[name]
        shape = (n_times, 6) + snapshots.tile_shape(spec)
        require(array.shape == shape, f"{what}: {name} has shape {array.shape}, not {shape}")
        require(array.dtype == np.dtype(spec["dtype"]), f"{what}: {name} has {array.dtype}")
        attrs = dict(array.attrs)
        require(attrs.get("_ARRAY_DIMENSIONS") == ["time", "tile"] + list(spec["dims"]),
                f"{what}: {name} has dims {attrs.get('_ARRAY_DIMENSIONS')}")
        require(attrs.get("units") == spec["units"],
                f"{what}: {name} has units {attrs.get('units')!r}, not {spec['units']!r}")
        data = array[...]
        for t in range(n_times):
            for tile in tiles:
                got, want = data[t, tile], snapshots.field(spec, t, tile)
                if rank is not None:
                    part = snapshots.rank_slices(spec, rank)
                    got, want = got[part], want[part]
                require(same(got, want),
                        lambda: f"{what}: {name} (dims {spec['dims']}) at time {t}, tile "
                        f"{tile}: {first_difference(got, want)}")
    array = group["time"]
    require(array.shape == (n_times,), f"{what}: time has shape {array.shape}")
    attrs = dict(array.attrs)
    require(attrs.get("_ARRAY_DIMENSIONS") == ["time"], f"{what}: time attributes {attrs}")
    require(attrs.get("calendar") == snapshots.calendar, f"{what}: time attributes {attrs}")
    decoded = cftime.num2date(
        array[...], units=attrs["units"], calendar=attrs["calendar"],
        only_use_cftime_datetimes=True)
    for t in range(n_times):
        wrong = abs((decoded[t] - snapshots.times[t]).total_seconds())
        require(wrong <= 2e-6, f"{what}: time {t} decodes to {decoded[t]}, stored was "
                f"{snapshots.times[t]}")


def same_chunk_writers(snapshots, log):
    """Chunks written by several ranks although the ranks own different parts."""
    split = {s["name"] for s in snapshots.variables
             if any(d in X_DIMS for d in s["dims"]) and any(d in Y_DIMS for d in s["dims"])}
    writers = {}
    for rank, action, key in log:
        name, _, chunk = key.rpartition("/")
        if action == "set" and rank is not None and not chunk.startswith("."):
            writers.setdefault((name, chunk), set()).add(rank)
    return {key: sorted(ranks) for key, ranks in writers.items()
            if len(ranks) > 1 and key[0].rpartition("/")[2] in split}


def make_store(kind, world, scratch):
    import zarr

    if kind == "directory":
        return zarr.storage.DirectoryStore(os.path.join(scratch, "out.zarr"))
    if kind == "path":
        return os.path.join(scratch, "out.zarr")
    if kind == "shared":
        return SharedStore(world)
    raise HarnessError(f"unknown store {kind}")


__all__ = ["Snapshots", "seeds"]
