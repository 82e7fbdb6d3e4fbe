"""Generated fields on the cubed sphere and the values they must have after exchanges."""
import numpy as np
from hypothesis import strategies as st

from . import cube
from .arrays import MEMORY, X, XI, Y, YI, allocate, encode, first_difference, rarely_large, same, seeds
from .core import LCG, require

SCALAR_DTYPES = ["float64", "float64", "float32", "int64", "int32", "int16", "uint8",
                 "bool", "complex128", "float16"]
VECTOR_DTYPES = ["float64", "float64", "float32", "int64", "int32", "complex128"]
EXTRA_NAMES = ["z", "z_soil", "z_interface", "tracer", "land", "years", "x_wind"]


def extras(max_dims=2, max_extent=3):
    one = st.fixed_dictionaries(
        {
            "extent": st.sampled_from([0] + 5 * list(range(1, max_extent + 1))),
            "origin": st.integers(0, 2),
            "pad": st.integers(0, 2),
        }
    )

    def name(lists):
        return st.permutations(EXTRA_NAMES).map(
            lambda names: [dict(e, name=n) for e, n in zip(lists, names)]
        )

    @st.composite
    def sized(draw):
        lists = draw(st.lists(one, max_size=max_dims))
        sizes = rarely_large(draw, [e["extent"] for e in lists])
        return [dict(e, extent=n) for e, n in zip(lists, sizes)]

    return sized().flatmap(name)


@st.composite
def grids(draw, max_layout=3, max_cells=4, weights=(1, 1, 2, 2, 3)):
    layout = draw(st.sampled_from([w for w in weights if w <= max_layout]))
    top = max_cells if layout < 3 else min(3, max_cells)
    cells = draw(st.sampled_from(list(range(1, top + 1)) + [2, 3][: max(0, top - 1)]))
    if layout == 1 and draw(st.sampled_from([False] * 7 + [True])):
        cells = draw(st.sampled_from([5, 6, 7, 8, 9, 12]))
    return {"layout": layout, "cells": cells}


def halo_widths(cells):
    """1..cells, wide halos as likely as narrow ones."""
    return st.sampled_from(list(range(1, cells + 1)))


@st.composite
def layouts_in_memory(draw, need_start, need_end, extra):
    """Padding, dimension order, memory layout of one array."""
    dims_perm = draw(st.permutations(list(range(2 + len(extra)))))
    return {
        "order": list(dims_perm),
        "start": [need_start + draw(st.integers(0, 2)), need_start + draw(st.integers(0, 2))],
        "end": [need_end + draw(st.integers(0, 2)), need_end + draw(st.integers(0, 2))],
        "memory": draw(st.sampled_from(MEMORY)),
    }


@st.composite
def twin(draw, first, dtypes):
    """Another quantity for the same communicator that resembles the first one: it may have
    another resolution, halo, staggering or dtype, but often an array of the same shape."""
    out = dict(first, dtype=draw(st.sampled_from([first["dtype"], draw(st.sampled_from(dtypes))])))
    if "interface" in first:
        out["interface"] = draw(st.sampled_from([first["interface"], True, False]))
    spec = dict(first["spec"], memory=draw(st.sampled_from(MEMORY)))
    kind = draw(st.sampled_from(["same shape", "same shape", "moved", "other"]))
    if kind == "same shape":
        totals = [first["cells"] + spec["start"][k] + spec["end"][k] for k in range(2)]
        out["cells"] = draw(st.integers(1, min(min(totals) - 2, 6)))
        starts = [draw(st.integers(1, t - out["cells"] - 1)) for t in totals]
        spec["start"] = starts
        spec["end"] = [t - out["cells"] - s for t, s in zip(totals, starts)]
    elif kind == "moved":
        spec["start"], spec["end"] = spec["end"], spec["start"]
    else:
        out["cells"] = draw(st.integers(1, 4))
        n = draw(halo_widths(out["cells"]))
        spec = draw(layouts_in_memory(n, n, first["extra"]))
    out["n"] = min([out["cells"]] + spec["start"] + spec["end"])
    out["spec"] = spec
    return out


def dims_of(spec, y_interface, x_interface, extra):
    names = [YI if y_interface else Y, XI if x_interface else X]
    names += [e["name"] for e in extra]
    return [names[i] for i in spec["order"]]


class Field:
    """One component of a field on one rank."""

    def __init__(self, grid, rank, spec, extra, y_interface, x_interface, dtype, salt=0):
        self.layout, self.cells, self.rank = grid["layout"], grid["cells"], rank
        self.spec, self.extra = spec, extra
        self.yi, self.xi = bool(y_interface), bool(x_interface)
        self.dtype = np.dtype(dtype)
        self.dims = dims_of(spec, self.yi, self.xi, extra)
        ext = [self.cells + self.yi, self.cells + self.xi] + [e["extent"] for e in extra]
        org = [spec["start"][0], spec["start"][1]] + [e["origin"] for e in extra]
        pad = [spec["end"][0], spec["end"][1]] + [e["pad"] for e in extra]
        order = spec["order"]
        self.canonical_extent, self.canonical_origin = ext, org
        self.extent = tuple(ext[i] for i in order)
        self.origin = tuple(org[i] for i in order)
        self.shape = tuple(ext[i] + org[i] + pad[i] for i in order)
        self.data = allocate(self.shape, self.dtype, spec["memory"])
        self.salt = salt

    def canonical(self, array=None):
        """View of a data array with axes (y, x, extras...)."""
        array = self.data if array is None else array
        return array.transpose(np.argsort(np.array(self.spec["order"])))

    def scramble(self, salt):
        """Distinct junk everywhere (halo and padding included)."""
        n = int(np.prod(self.shape))
        ids = np.arange(n).reshape(self.shape) + (self.rank * 977 + salt * 131) * 7 + 13
        junk = encode(ids, self.dtype)
        self.data[...] = -junk if self.dtype.kind in "fic" else ~junk

    def _extra_ids(self):
        shape = [e["extent"] for e in self.extra]
        return np.arange(int(np.prod(shape, dtype=int))).reshape([1, 1] + shape), int(
            np.prod(shape, dtype=int))

    def values(self, ids2d, sign2d, salt):
        """Values of the global field for a [y, x] table of ids (axis folded into ids)."""
        extra, n = self._extra_ids()
        shape2d = ids2d.shape + (1,) * len(self.extra)
        vals = encode(ids2d.reshape(shape2d) * n + extra + salt * 1000003, self.dtype)
        if sign2d is None:
            return vals
        return vals * sign2d.reshape(shape2d).astype(self.dtype)

    def window(self, halo):
        """Slices, canonical order, of the compute domain widened by halo points."""
        sl = []
        for k in range(2):
            o, e = self.canonical_origin[k], self.canonical_extent[k]
            sl.append(slice(o - halo, o + e + halo))
        for k, e in enumerate(self.extra):
            sl.append(slice(e["origin"], e["origin"] + e["extent"]))
        return tuple(sl)

    def global_values(self, halo, salt, component=None):
        """(values, defined) of the global field on the widened window."""
        ids, xa, xs, ya, ys = cube.expected_points(
            self.rank, self.layout, self.cells, halo, self.yi, self.xi)
        defined = ids >= 0
        if component is None:
            return self.values(np.maximum(ids, 0), None, salt), defined
        axis, sign = (xa, xs) if component == "x" else (ya, ys)
        return self.values(np.maximum(ids, 0) * 3 + axis, sign, salt), defined

    def set_interior(self, salt, component=None):
        vals, _ = self.global_values(0, salt, component)
        self.canonical()[self.window(0)] = vals

    def expected_after_halo(self, before, n_points, salt, component=None):
        out = before.copy()
        vals, defined = self.global_values(n_points, salt, component)
        can = self.canonical(out)
        region = can[self.window(n_points)]
        mask = defined.reshape(defined.shape + (1,) * len(self.extra))
        can[self.window(n_points)] = np.where(mask, vals, region)
        return out

    def quantity(self, util, units="m/s"):
        return util.Quantity(
            self.data, dims=tuple(self.dims), units=units, origin=self.origin,
            extent=self.extent)

    def check(self, expected, what):
        require(
            same(np.ascontiguousarray(self.data), np.ascontiguousarray(expected)),
            lambda: f"{what}: rank {self.rank} dims {self.dims} origin {self.origin} "
            f"extent {self.extent}: {first_difference(self.data, expected)}",
        )


STAGGER = {  # (y_interface, x_interface) of the x- and y-component
    "A": ((0, 0), (0, 0)),
    "B": ((1, 1), (1, 1)),
    "C": ((1, 0), (0, 1)),
    "D": ((0, 1), (1, 0)),
}


def rank_memory(spec, rank, vary):
    """Ranks may hold the same field in different memory layouts."""
    if not vary:
        return spec
    return dict(spec, memory=MEMORY[LCG(rank + 1).next(len(MEMORY))])


__all__ = [name for name in dir() if not name.startswith("_")]
_ = seeds
