"""C25: timers account for every completed interval once."""
import warnings
from timeit import default_timer

from hypothesis import strategies as st

from ..core import require

NAMES = ["a", "b", "", "mainloop", "a b", "total", "A", "ab"]


def strategy(tier):
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(
                ["start", "start", "start", "stop", "stop", "stop", "clock", "clock",
                 "clock_raise", "clock_nested", "reset", "enable", "disable", "read",
                 "tamper", "reenter"]),
            "name": st.integers(0, len(NAMES) - 1),
            "other": st.integers(0, len(NAMES) - 1),
            "wait": st.sampled_from([0, 0, 0, 30, 120]),
        }
    )
    return st.fixed_dictionaries(
        {
            "ops": st.lists(op, min_size=1, max_size=60 if tier == "thorough" else 30),
            "null": st.sampled_from([False, False, False, True]),
            "n_names": st.integers(1, len(NAMES)),
        }
    )


class Fault(Exception):
    pass


def busy(microseconds):
    end = default_timer() + microseconds * 1e-6
    while default_timer() < end:
        pass


def check(case, ctx):
    import fv3gfs.util as util

    null = case["null"]
    timer = util.NullTimer() if null else util.Timer()
    enabled = not null
    running = {}  # name -> (before, after) readings around the start
    hits, low, high = {}, {}, {}
    snapshots = []
    completed = 0

    def add(name, start, before, after):
        nonlocal completed
        completed += 1
        hits[name] = hits.get(name, 0) + 1
        low[name] = low.get(name, 0.0) + (before - start[1])
        high[name] = high.get(name, 0.0) + (after - start[0])

    def start(name):
        t0 = default_timer()
        timer.start(name)
        return t0, default_timer()

    def compare(what):
        for face in ("times", "hits"):
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                with ctx.sut(what):
                    value = getattr(timer, face)
            told = any(issubclass(w.category, RuntimeWarning) for w in caught)
            require(told == bool(running),
                    f"{what}: reading {face} with {sorted(running)} running "
                    f"{'warned' if told else 'gave no warning'}")
            if face == "times":
                got_times = value
            else:
                got_hits = value
        require(dict(got_hits) == hits, f"{what}: hits {got_hits}, completed {hits}")
        require(set(got_times) == set(hits), f"{what}: times of {sorted(got_times)}")
        for name, value in got_times.items():
            eps = 1e-9 * (1 + abs(value)) * (1 + hits[name])
            require(low[name] - eps <= value <= high[name] + eps,
                    f"{what}: {name!r} took {value}, the bracketing clock readings allow "
                    f"{low[name]}..{high[name]} for {hits[name]} intervals")
        require(bool(timer.enabled) is enabled, f"{what}: enabled is {timer.enabled}")
        return got_times, got_hits

    def unchanged():
        for (times, hit), (t, h) in snapshots:
            require(times == t and hit == h, "a returned total changed afterwards")

    for step, op in enumerate(case["ops"]):
        name = NAMES[op["name"] % case["n_names"]]
        other = NAMES[op["other"] % case["n_names"]]
        kind = op["op"]
        what = f"op {step}: {kind} {name!r}"
        busy(op["wait"])
        ctx.label(kind)
        if kind == "start":
            if enabled and name in running:
                ctx.raises(ValueError, lambda: timer.start(name), what)
                ctx.label("illegal start")
            else:
                with ctx.sut(what):
                    reading = start(name)
                if enabled:
                    running[name] = reading
        elif kind == "stop":
            if enabled and name not in running:
                ctx.raises(Exception, lambda: timer.stop(name), what)
                ctx.label("illegal stop")
            else:
                before = default_timer()
                with ctx.sut(what):
                    timer.stop(name)
                after = default_timer()
                if enabled:
                    add(name, running.pop(name), before, after)
        elif kind in ("clock", "clock_raise", "clock_nested"):
            if name in running:
                if enabled:
                    def enter():
                        with timer.clock(name):
                            pass
                    ctx.raises(ValueError, enter, what)
                    compare(what)
                    require(True, what)
                continue
            if kind == "clock_nested" and (other == name or other in running):
                continue
            t0 = default_timer()
            inner = None
            try:
                with timer.clock(name):
                    t1 = default_timer()
                    busy(op["wait"])
                    if kind == "clock_nested":
                        i0 = default_timer()
                        with timer.clock(other):
                            i1 = default_timer()
                            i2 = default_timer()
                        inner = (i0, i1, i2, default_timer())
                    if kind == "clock_raise":
                        t2 = default_timer()
                        raise Fault()
                    t2 = default_timer()
            except Fault:
                require(kind == "clock_raise", "fault")
            else:
                require(kind != "clock_raise", f"{what}: the exception was swallowed")
            t3 = default_timer()
            if enabled:
                if inner:
                    add(other, inner[:2], inner[2], inner[3])
                add(name, (t0, t1), t2, t3)
        elif kind == "reenter":
            # the timed block itself starts the same name: rejected, the outer one counts
            if name in running or not enabled:
                continue
            t0 = default_timer()
            try:
                with timer.clock(name):
                    t1 = default_timer()
                    t2 = default_timer()
                    timer.start(name)
            except ValueError:
                add(name, (t0, t1), t2, default_timer())
            else:
                require(False, f"{what}: started a running clock")
        elif kind == "reset":
            with ctx.sut(what):
                timer.reset()
            hits.clear()
            low.clear()
            high.clear()
        elif kind == "enable":
            if null:
                ctx.raises(NotImplementedError, timer.enable, what)
            else:
                with ctx.sut(what):
                    timer.enable()
                enabled = True
        elif kind == "disable":
            if running:
                ctx.raises(RuntimeError, timer.disable, what)
                ctx.label("illegal disable")
            else:
                with ctx.sut(what):
                    timer.disable()
                enabled = False
        elif kind == "tamper":
            times, hit = timer.times, timer.hits
            for d in (times, hit):
                try:
                    d["a"] = 1e9
                    d.pop("b", None)
                except TypeError:
                    pass  # a read-only snapshot is fine as well
        got = compare(what)
        if kind == "read":
            snapshots.append((got, (dict(got[0]), dict(got[1]))))
        unchanged()
    ctx.label("null timer" if null else "timer")
    ctx.nontrivial(completed > 0 or null)
