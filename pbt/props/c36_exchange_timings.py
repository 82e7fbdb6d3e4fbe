"""C36: a communicator's timer records its exchanges, when it is on, and disturbs nothing."""
import warnings
from timeit import default_timer

from .. import programs
from ..core import require

TIMER_OPS = ["off", "on", "reset", "read", "off", "on"]
NAMES = ("pack", "unpack", "Isend", "Recv")


def strategy(tier):
    return programs.programs(tier, bad=True, more_ops=TIMER_OPS * 2)


def reading(timer, what):
    """Times and hits; neither may complain that a clock is going."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        times, hits = dict(timer.times), dict(timer.hits)
    require(not caught, lambda: f"{what}: {caught[0].message}")
    return times, hits


class Watcher:
    """Follows the timer of one rank's communicator."""

    def __init__(self, rank, communicator, counts):
        self.rank, self.counts, self.old = rank, counts, []
        self.renewed(communicator)

    def renewed(self, communicator):
        if self.old:
            self.old[-1] = (self.timer, reading(self.timer, f"rank {self.rank}"))
        self.timer, self.on = communicator.timer, True
        self.old.append(None)
        self.start = default_timer()
        self.last = ({}, {})
        where = f"rank {self.rank}: new communicator"
        require(self.timer.enabled, f"{where}: its timer is off")
        require(reading(self.timer, where) == ({}, {}), f"{where}: its timer is not empty")

    def compare(self, what):
        what = f"rank {self.rank}, {what}"
        times, hits = reading(self.timer, what)
        require(bool(self.timer.enabled) is self.on, f"{what}: enabled is {self.timer.enabled}")
        require(set(times) == set(hits), f"{what}: times of {set(times)}, hits of {set(hits)}")
        if not self.on:
            require((times, hits) == self.last,
                    f"{what}: a timer that is off went from {self.last} to {(times, hits)}")
        else:
            elapsed = default_timer() - self.start
            for name, total in times.items():
                require(self.last[0].get(name, 0) <= total <= elapsed and
                        self.last[1].get(name, 0) <= hits[name],
                        f"{what}: {name} went from {self.last[0].get(name)} s to {total} s "
                        f"in {elapsed} s, hits {self.last[1].get(name)} to {hits[name]}")
        for old in self.old[:-1]:
            require(reading(old[0], what) == old[1], f"{what}: the old communicator's timer")
        new = {n for n in hits if hits[n] > self.last[1].get(n, 0)}
        self.last = (times, hits)
        return new

    def before(self, what):
        self.compare(f"before {what}")

    def exchanged(self, kind, what, blocking):
        new = self.compare(f"{what}: {kind}")
        if kind != "sync" and self.on:
            # an asynchronous exchange is packed and sent when it starts
            wanted = set(NAMES) if blocking else {"Recv"}
            require(new >= wanted, f"rank {self.rank}, {what}: recorded only {sorted(new)} for a "
                    f"{kind} exchange")
            self.counts["exchanges timed"] += 1

    def operation(self, name, op, what):
        self.compare(what)
        # ranks need not agree on what they time
        if name in ("off", "on", "reset") and (op["seed"] + self.rank) % 4:
            if name == "off":
                self.timer.disable()
                self.on = False
            elif name == "on":
                self.timer.enable()
                self.on = True
            else:
                self.timer.reset()
                self.last, self.start = ({}, {}), default_timer()
            self.compare(f"after {what}")


def check(case, ctx):
    counts = {"exchanges timed": 0}
    world, _ = programs.run(
        case, ctx, lambda rank, communicator: Watcher(rank, communicator, counts))
    ops = {op["op"] for op in case["ops"]}
    ctx.label("switched", bool(ops & {"on", "off", "reset"}))
    ctx.nontrivial(counts["exchanges timed"] > 0 and bool(ops & {"on", "off", "reset"}))
