"""C08: invalid exchanges are rejected without damage to data or later exchanges."""
from .. import programs
from ..core import require


def strategy(tier):
    return programs.programs(tier, bad=True)


def check(case, ctx):
    kinds = {s["kind"] for s in case["slots"]}
    world, _ = programs.run(case, ctx)
    require(world.leftovers(receives=False) == 0,
            f"{world.leftovers(receives=False)} messages of rejected exchanges were never received")
    effective = 0
    for op in case["ops"]:
        kind = case["slots"][op["slot"] % len(case["slots"])]["kind"]
        if op["op"] in programs.BAD_OPS:
            applies = {
                "zero": kind == "scalar", "zero_vector": kind == "vector",
                "too_wide": kind == "scalar", "too_wide_vector": kind != "scalar",
                "wrong_grid": True,
            }[op["op"]]
            if applies:
                effective += 1
                ctx.label("rejected", op["op"])
    ctx.nontrivial(effective > 0 and bool(kinds))
