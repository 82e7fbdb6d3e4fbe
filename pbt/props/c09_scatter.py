"""C09: a scatter gives each rank exactly its part of the global array."""
from .. import collect


def strategy(tier):
    return collect.histories(
        tier, ["scatter", "scatter", "scatter", "gather", "new_communicator", "no_send"])


def check(case, ctx):
    collect.run_history(case, ctx)
