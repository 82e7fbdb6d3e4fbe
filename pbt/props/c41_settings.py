"""C41: the settings of the process neither change results nor are changed."""
import contextlib
import copy
import datetime
import decimal
import gc
import importlib
import importlib.abc
import importlib.machinery
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import cftime
import numpy as np
from hypothesis import strategies as st

from ..arrays import MEMORY, schedules, seeds
from ..core import HarnessError, fail, require
from . import c37_optional as c37

NEEDS_SCRATCH = True


@st.composite
def cases(draw, tier):
    return {
        # python's -O and -OO; the package imported for this case, or earlier
        "optimize": draw(st.sampled_from([0, 0, 1, 2])),
        "fresh": draw(st.sampled_from([False, False, False, True])),
        "log": draw(st.sampled_from(["as is", "debug", "debug", "off"])),
        "floats": draw(st.sampled_from(["warn", "raise", "raise", "ignore"])),
        "print": draw(st.sampled_from([None, 1, 5])),
        "keep_attrs": draw(st.sampled_from(["default", True, False])),
        "collector": draw(st.sampled_from(["as is", "off", "often"])),
        "warn": draw(st.sampled_from(["ignore", "always", "default"])),
        "locale": draw(st.sampled_from(["C", "C.utf8"])),
        "cells": draw(st.integers(1, 4)),
        "extra": draw(st.integers(1, 3)),
        "memory": draw(st.sampled_from(MEMORY)),
        "dtype": draw(st.sampled_from(c37.DTYPES)),
        "ops": draw(st.lists(st.fixed_dictionaries({
            "op": st.sampled_from(sorted(c37.NEEDS) + ["rejected", "rejected", "nudging"]),
            "seed": seeds}),
            min_size=1, max_size=6)),
        "sched": draw(schedules(False)),
    }


def strategy(tier):
    return cases(tier)


class Optimizing(importlib.abc.MetaPathFinder):
    """Imports the package as python -O or -OO does."""

    def __init__(self, level):
        self.level = level

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] != "fv3gfs":
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path, self.level)
        return spec


class Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, name, path, level):
        super().__init__(name, path)
        self.level = level

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True,
                       optimize=self.level)


PACKAGES = {}


@contextlib.contextmanager
def imported(level, fresh):
    hidden = c37.rooted(("fv3gfs",))
    finder = Optimizing(level)
    for name in hidden:
        del sys.modules[name]
    sys.meta_path.insert(0, finder)
    try:
        if fresh:
            PACKAGES.pop(level, None)
        sys.modules.update(PACKAGES.get(level, {}))
        try:
            package = importlib.import_module("fv3gfs.util")
        except Exception as err:  # noqa: BLE001
            fail(f"importing the package with -O level {level}: {type(err).__name__}: {err}")
        PACKAGES[level] = c37.rooted(("fv3gfs",))
        yield package
    finally:
        sys.meta_path.remove(finder)
        for name in c37.rooted(("fv3gfs",)):
            del sys.modules[name]
        sys.modules.update(hidden)


class Records(logging.Handler):
    """Formats every record, as a handler that writes them does."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.problems, self.count = [], 0

    def emit(self, record):
        self.count += 1
        try:
            self.format(record)
        except Exception as err:  # noqa: BLE001
            self.problems.append(f"{record.msg!r}: {type(err).__name__}: {err}")


class Sink(io.StringIO):
    pass


@contextlib.contextmanager
def settings(case, top, records):
    """The settings of the case, and unusual values for the rest; all restored."""
    import xarray as xr

    root, package = logging.getLogger(), logging.getLogger("fv3gfs.util")
    keep = {
        "handlers": list(root.handlers), "level": root.level, "disable": logging.root.manager.disable,
        "package": (package.level, package.propagate, list(package.handlers), package.disabled),
        "print": np.get_printoptions(), "random": random.getstate(),
        "np.random": np.random.get_state(), "cwd": os.getcwd(), "environ": dict(os.environ),
        "gc": (gc.isenabled(), gc.get_threshold()), "streams": (sys.stdout, sys.stderr),
        "locale": locale.setlocale(locale.LC_ALL), "excepthook": sys.excepthook,
    }
    here = os.path.join(top, "here")
    os.mkdir(here)
    try:
        with contextlib.ExitStack() as stack:
            stack.enter_context(warnings.catch_warnings())
            warnings.resetwarnings()
            warnings.simplefilter(case["warn"])
            stack.enter_context(xr.set_options(keep_attrs=case["keep_attrs"], file_cache_maxsize=77))
            stack.enter_context(np.errstate(all=case["floats"], under="ignore"))
            stack.enter_context(decimal.localcontext())
            os.chdir(here)
            os.environ["PBT_SENTINEL"] = "kept"
            locale.setlocale(locale.LC_ALL, case["locale"])
            np.set_printoptions(linewidth=93)
            if case["print"]:
                np.set_printoptions(precision=case["print"], threshold=1, edgeitems=1)
            np.random.seed(4242)
            random.seed(4242)
            sys.stdout, sys.stderr = Sink(), Sink()
            if case["log"] == "debug":
                root.addHandler(records)
                root.setLevel(logging.DEBUG)
            elif case["log"] == "off":
                logging.disable(logging.CRITICAL)
            if case["collector"] == "off":
                gc.disable()
            elif case["collector"] == "often":
                gc.set_threshold(50, 2, 2)
            yield here
    finally:
        root.handlers[:] = keep["handlers"]
        root.setLevel(keep["level"])
        logging.disable(keep["disable"])
        package.setLevel(keep["package"][0])
        package.propagate, package.disabled = keep["package"][1], keep["package"][3]
        package.handlers[:] = keep["package"][2]
        np.set_printoptions(**keep["print"])
        random.setstate(keep["random"])
        np.random.set_state(keep["np.random"])
        os.chdir(keep["cwd"])
        for k in set(os.environ) - set(keep["environ"]):
            del os.environ[k]
        os.environ.update(keep["environ"])
        (gc.enable if keep["gc"][0] else gc.disable)()
        gc.set_threshold(*keep["gc"][1])
        sys.stdout, sys.stderr = keep["streams"]
        sys.excepthook = keep["excepthook"]
        locale.setlocale(locale.LC_ALL, keep["locale"])


def handlers(logger):
    return (logger.level, logger.propagate, logger.disabled, [id(h) for h in logger.handlers])


def snapshot(here):
    import fsspec
    import xarray as xr

    umask = os.umask(0o22)
    os.umask(umask)
    state = np.random.get_state()
    return {
        "numpy error handling": np.geterr(),
        "numpy print options": repr(sorted(np.get_printoptions().items())),
        "numpy random state": (state[0], state[1].tobytes(), state[2:]),
        "random state": random.getstate(),
        "decimal context": repr(decimal.getcontext()),
        "warnings filters": repr(warnings.filters),
        "warnings.showwarning": warnings.showwarning,
        "xarray options": repr(sorted(xr.core.options.OPTIONS.items(), key=str)),
        "fsspec configuration": copy.deepcopy(fsspec.config.conf),
        "root logger": (handlers(logging.getLogger()), logging.root.manager.disable),
        "package logger": handlers(logging.getLogger("fv3gfs.util")),
        "logger class": logging.getLoggerClass(),
        "collector": (gc.isenabled(), gc.get_threshold()),
        "working directory": os.getcwd(),
        "files in the working directory": sorted(os.listdir(here)),
        "environment": dict(os.environ),
        "module search path": list(sys.path),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "stream descriptors": [os.fstat(k)[:3] for k in (0, 1, 2)],
        "locale": locale.setlocale(locale.LC_ALL),
        "umask": umask,
        "signal handlers": [repr(signal.getsignal(s)) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGUSR1, signal.SIGALRM)],
        "hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.displayhook)),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": round(sys.getswitchinterval(), 6),
    }


class Operations(c37.Operations):
    """What a thread has for itself is set, and looked at, in the ranks' threads as well."""

    def world(self, program):
        floats = self.case.get("floats", "warn")

        def threaded(comm):
            with np.errstate(all=floats, under="ignore"):
                before = np.geterr()
                out = program(comm)
                require(np.geterr() == before, "a rank changed numpy's error handling")
                return out

        return super().world(threaded)

    def nudging(self, seed):
        """With finite values: there is nothing to raise."""
        def finite(k):
            data = self.quantity(("y", "x"), seed + k, 1).data.astype(float)
            return self.util.Quantity(np.clip(np.nan_to_num(data), -1e6, 1e6), ("y", "x"), "m")

        state = {"a": finite(0), "b": finite(1)}
        scales = {"a": datetime.timedelta(hours=1 + seed % 5)}
        tendencies = self.util.get_nudging_tendencies(state, {"a": state["b"]}, scales)
        out = self.util.apply_nudging(
            state, {"a": state["b"]}, scales, datetime.timedelta(seconds=900))
        return [tendencies, state, out]

    def rejected(self, seed):
        """Invalid calls are rejected as usual."""
        util = self.util
        part = util.CubedSpherePartitioner(util.TilePartitioner((1, 1)))
        q = self.quantity(("y", "x"), seed, 1)
        other = util.Quantity(q.data.copy(), ("y", "x"), "another")
        date = cftime.DatetimeJulian(2016, 1, 1 + seed % 28)
        monitor = util.ZarrMonitor({}, part, mode="w")
        monitor.store({"a": q, "b": q, "time": date})
        wide = self.quantity(("y", "x", "z"), seed)
        timer = util.Timer()
        timer.start("a")
        null = util.NullTimer()
        calls = {
            "variable lost": lambda: monitor.store({"a": q, "time": date}),
            "new variable": lambda: monitor.store({"a": q, "b": q, "c": q, "time": date}),
            "other units": lambda: monitor.store({"a": q, "b": other, "time": date}),
            "other extent": lambda: monitor.store({"a": q, "b": self.quantity(
                ("y", "x_interface"), seed), "time": date}),
            "other calendar": lambda: monitor.store(
                {"a": q, "b": q, "time": cftime.DatetimeNoLeap(2016, 1, 1)}),
            "no units": lambda: util.ensure_equal_units("m", "s"),
            "dims": lambda: util.Quantity(q.data, ("x",), "m"),
            "extent": lambda: util.Quantity(q.data, ("y", "x"), "m", (1, 1), (99, 1)),
            "transpose": lambda: q.transpose(["x", "z"]),
            "view": lambda: q.view.northwest[99, 0],
            "select": lambda: q.view.northwest.sel(z=0),
            "partitioner": lambda: util.CubedSpherePartitioner((1, 1)),
            "ranks": lambda: util.get_tile_index(1, 7),
            "unstarted": lambda: timer.stop("b"),
            "started": lambda: timer.start("a"),
            "null": null.enable,
            "timeless": lambda: util.write_state({"a": q}, os.path.join(self.top, "no.nc")),
            "nowhere": lambda: util.read_state(os.path.join(self.top, "nowhere.nc")),
            "nudging": lambda: util.apply_nudging(
                {"a": util.Quantity(np.ones((2, 2)), ("y", "x"), "m")},
                {"a": util.Quantity(np.ones((2, 2)), ("y", "x"), "s")},
                {"a": datetime.timedelta(1)}, datetime.timedelta(1)),
        }

        def outcome(call):
            try:
                return "accepted", c37.digest(call())
            except Exception as err:  # noqa: BLE001
                return "rejected", type(err).__name__

        def exchanges(comm):
            cube = self.cube(comm)
            a = self.quantity(("y", "x"), seed, 1)
            before = a.data.copy()
            found = [outcome(lambda: cube.halo_update(a, 0)),
                     outcome(lambda: cube.halo_update(a, 2)),
                     outcome(lambda: cube.vector_halo_update(a, a, 2)),
                     outcome(lambda: cube.synchronize_vector_interfaces(a, a))]
            return found, before.tobytes() == a.data.tobytes()

        return [wide.dims, {name: outcome(call) for name, call in calls.items()},
                self.world(exchanges)]


def perform(util, case, top):
    os.mkdir(top)
    operations = Operations(util, case, top, ())
    out = []
    for op in case["ops"]:
        out.append(c37.digest(getattr(operations, op["op"])(op["seed"])))
    return out


WARM = []


def warm_up(util, top):
    """Libraries that are imported when they are first needed may set things."""
    if not WARM:
        everything = {"ops": [{"op": name, "seed": 1} for name in sorted(c37.NEEDS)], "cells": 2,
                      "extra": 2, "memory": MEMORY[0], "dtype": "float64",
                      "floats": "warn",
                      "sched": {"mode": "eager", "policy": "random", "seed": 1,
                                "sync_coll": False}}
        try:
            perform(util, everything, top)
        except Exception:  # noqa: BLE001
            pass  # the cases will show
        WARM.append(True)


def check(case, ctx):
    import fv3gfs.util as util

    top = ctx.scratch
    c37.prepare(top)
    warm_up(util, os.path.join(top, "warm"))
    plain = dict(case, floats="warn")
    with ctx.sut("with usual settings"):
        full = perform(util, plain, os.path.join(top, "full"))
    records = Records()
    with settings(case, top, records) as here:
        streams = sys.stdout, sys.stderr
        before = snapshot(here)
        with imported(case["optimize"], case["fresh"]) as package:
            if package is util:
                raise HarnessError("the package was not imported anew")
            with ctx.sut("with other settings"):
                got = perform(package, case, os.path.join(top, "other"))
        after = snapshot(here)
    for k, (op, a, b) in enumerate(zip(case["ops"], full, got)):
        require(a == b, lambda: f"op {k} ({op['op']}): got {b!r:.300} with the settings "
                                f"of the case, otherwise {a!r:.300}")
        ctx.label(op["op"])
    changed = [name for name in before if before[name] != after[name]]
    require(not changed, lambda: "changed settings of the process: " + "; ".join(
        f"{name}: {before[name]!r:.150} is now {after[name]!r:.150}" for name in changed))
    require(streams[0].getvalue() == "", lambda: f"printed {streams[0].getvalue()!r:.200}")
    require(not records.problems, lambda: f"log records cannot be formatted: {records.problems[:2]}")
    ctx.label("-" + "O" * case["optimize"] if case["optimize"] else "not optimized")
    ctx.label("records", "some" if records.count else "none")
    ctx.nontrivial(bool(case["optimize"] or case["floats"] == "raise" or records.count
                        or case["collector"] != "as is"))
