"""C10: a gather reassembles the global array and inverts a scatter."""
from .. import collect


def strategy(tier):
    return collect.histories(
        tier, ["gather", "gather", "gather", "round_trip", "round_trip", "scatter",
               "new_communicator"])


def check(case, ctx):
    collect.run_history(case, ctx)
