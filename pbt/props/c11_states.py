"""C11: scattering and gathering states moves every variable and the time."""
import datetime

import cftime
import numpy as np
from hypothesis import strategies as st

from .. import collect
from ..arrays import TILE, X_DIMS, Y_DIMS, agree, first_difference, same, schedules
from ..core import LCG, require

NAMES = ["a", "b", "air_temperature", "Z", "time_since_start", "x", "tile", "_w", "",
         "times"]


@st.composite
def cases(draw, tier):
    deep = tier == "thorough"
    names = draw(st.permutations(NAMES))[: draw(st.integers(0, 4))]
    if draw(st.integers(0, 11)) == 11:
        # as many as a model has; their order by name is not that of their numbers
        names = [f"tracer_{k}" for k in range(draw(st.integers(8, 40)))] + list(names)
    # twins of one kind share shape and dtype, so that mixed up messages go unnoticed
    # by the transport
    twin = draw(collect.fields())
    variables = [
        {
            "name": n,
            "field": twin if draw(st.booleans()) else draw(collect.fields()),
            "holder": draw(collect.holders()),
            "given": draw(st.sampled_from(["none", "all", "mixed"])),
        }
        for n in names
    ]
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["scatter", "gather"]),
            "send_time": st.booleans(),
            "recv_time": st.booleans(),
            "recv_state": st.booleans(),
            "orders": st.integers(0, 2 ** 20),
            "same_order": st.booleans(),
            "bystander": st.booleans(),
            # which of the variables take part, and under whose names
            "subset": st.sampled_from([15, 15, 15, 7, 3, 5, 6, 11, 1, 0]),
            "rename": st.sampled_from([0, 0, 0, 1, 2]),
        }
    )
    return {
        "grid": draw(collect.grids(deep)),
        "variables": variables,
        "ops": draw(st.lists(op, min_size=1, max_size=3)),
        "calendar": draw(st.booleans()),
        "sched": draw(schedules(True)),
    }


def strategy(tier):
    return cases(tier)


def check(case, ctx):
    import fv3gfs.util as util

    from ..sim import world_from

    with ctx.sut("partitioner"):
        setup = collect.Setup(util, case["grid"])

    def moment(k):
        cls = cftime.DatetimeJulian if case["calendar"] else datetime.datetime
        return cls(2016, 8, 1 + k % 20, k % 24)

    def shuffled(items, op, rank):
        seed = op["orders"] + (0 if op["same_order"] else rank * 101)
        return LCG(seed).shuffled(items)

    def program(comm):
        world_rank = comm.Get_rank()
        rank, group = setup.local_rank(world_rank), setup.group(world_rank)
        communicator = setup.communicator(comm)
        is_root = rank == 0
        kept = []
        for step, op in enumerate(case["ops"]):
            salt = 3 * step + 1
            # the names of a state may differ from those of the previous one
            variables = [
                dict(case["variables"][(k + op["rename"]) % len(case["variables"])],
                     name=var["name"])
                for k, var in enumerate(case["variables"]) if op["subset"] == 15 or op["subset"] >> k & 1]
            scatter = op["op"] == "scatter"
            held, sent = {}, {}
            receives = scatter or is_root

            def dims_of(f, on_root):
                return setup.global_dims(f) if on_root else f["dims"]

            def shape_of(f, on_root):
                return setup.global_shape(f) if on_root else setup.extents(f)[0]

            def new_held(var, on_root, salt):
                f = var["field"]
                return collect.Held(
                    util, dims_of(f, on_root), shape_of(f, on_root), f["dtype"],
                    f["units"], var["holder"], salt)

            # the sending side
            if is_root or not scatter:
                for k, var in enumerate(variables):
                    h = new_held(var, scatter, salt + 11 * k)
                    if scatter:
                        h.put(collect.global_values(
                            setup, var["field"], salt + 13 * k + 29 * group))
                    else:
                        h.put(collect.rank_values(
                            setup, var["field"], world_rank, salt + 13 * k))
                    sent[var["name"]] = h
            send_state = {}
            for name in shuffled(sorted(sent) + ["time"], op, rank):
                if name != "time":
                    send_state[name] = sent[name].quantity
                elif op["send_time"]:
                    # the time of the root is the one which counts
                    send_state["time"] = moment(step if is_root else step + 1)
            if scatter and not is_root:
                send_state = None
            # the receiving side
            recv_state = None
            if op["recv_state"] and (receives or op["bystander"]):
                recv_state = {}
                entries = []
                for k, var in enumerate(variables):
                    if {"none": False, "all": True,
                            "mixed": (rank + k + step) % 2 == 0}[var["given"]]:
                        entries.append(var["name"])
                other = collect.Held(
                    util, ["x"], [3], "float64", "m", variables[0]["holder"], 5
                ) if variables and op["bystander"] else None
                names = shuffled(entries + ["time"] + ["bystander"] * (other is not None),
                                 op, rank + 50)
                for name in names:
                    if name == "time":
                        if op["recv_time"]:
                            recv_state["time"] = moment(100 + step)
                    elif name == "bystander":
                        recv_state[name] = other.quantity
                    else:
                        k = [v["name"] for v in variables].index(name)
                        held[name] = new_held(variables[k], not scatter, 500 + k)
                        recv_state[name] = held[name].quantity
            else:
                other = None
            given_state = recv_state
            before = dict(recv_state or {})
            sent_before = dict(send_state or {})
            what = f"op {step}: {op['op']}_state on rank {rank}"
            if scatter:
                got = communicator.scatter_state(send_state, recv_state)
            else:
                got = communicator.gather_state(send_state, recv_state)
            # what must have happened
            if send_state is not None:
                require(
                    set(send_state) == set(sent_before)
                    and all(send_state[n] is sent_before[n] for n in sent_before),
                    f"{what}: the sent dictionary was changed")
            for name, h in sent.items():
                h.require_unchanged(f"{what}: sent variable {name} was changed")
            if other is not None:
                other.require_unchanged(f"{what}: unrelated entry of the receiving state")
            if not receives:
                require(got is None or got is given_state, f"{what}: returned {got}")
                if given_state is not None:
                    require(set(given_state) == set(before)
                            and all(given_state[n] is before[n] for n in before),
                            f"{what}: the state given away from the root was changed")
                for name, h in held.items():
                    h.require_unchanged(f"{what}: variable {name} given away from the root")
                continue
            require(got is not None, f"{what}: nothing returned")
            if given_state is not None:
                require(got is given_state, f"{what}: another dictionary was returned")
            expected = {v["name"] for v in variables} | set(before)
            if op["send_time"]:
                expected.add("time")
            require(set(got) == expected, f"{what}: entries {sorted(got)}, expected "
                    f"{sorted(expected)}")
            if op["send_time"]:
                require(got["time"] == moment(step) and type(got["time"]) is type(
                    moment(step)), f"{what}: time {got['time']}, sent {moment(step)}")
            elif "time" in before:
                require(got["time"] == before["time"], f"{what}: time was changed")
            if other is not None:
                require(got["bystander"] is before["bystander"], f"{what}: bystander")
            for k, var in enumerate(variables):
                f, name = var["field"], var["name"]
                where = f"{what}: variable {name} {f['dims']}"
                if scatter:
                    values = collect.global_values(
                        setup, f, salt + 13 * k + 29 * group)[setup.part(f, rank)]
                else:
                    values = check_gathered(setup, f, got[name], group, salt + 13 * k, where)
                collect.check_received(
                    held.get(name), got[name], name in held, dims_of(f, not scatter),
                    shape_of(f, not scatter), f["dtype"], f["units"], values, where)
                kept.append((got[name], got[name].data.copy(), where))
            for quantity, data, where in kept:
                require(same(quantity.data, data) or op["recv_state"],
                        f"{what}: the result of {where} has changed")
            kept = [(q, q.data.copy(), w) for q, _, w in kept]
        if setup.n_ranks == 1:  # with more ranks the others would wait for the root
            ctx.raises(TypeError, lambda: communicator.scatter_state(None),
                       "scatter_state of nothing on the root")
        return True

    world = world_from(setup.n_world, case["sched"])
    done = world.run(program)
    require(all(done), "not every rank finished")
    require(world.leftovers() == 0, "messages were never received")
    ctx.label("grid", setup.kind)
    ctx.label("variables", len(case["variables"]))
    ctx.nontrivial(setup.n_ranks > 1 and len(case["variables"]) > 1)
    for op in case["ops"]:
        ctx.label(op["op"], "same order" if op["same_order"] else "differing orders")
    assert TILE and X_DIMS and Y_DIMS and first_difference


def check_gathered(setup, f, quantity, group, salt, where):
    target = np.array(quantity.view[:])
    shape = setup.global_shape(f)
    require(target.shape == shape, f"{where}: shape {target.shape}, expected {shape}")
    matched = np.zeros(shape, bool)
    for r in range(setup.n_ranks):
        index = setup.part(f, r)
        values = collect.rank_values(setup, f, r + group * setup.n_ranks, salt)
        matched[index] |= agree(target[index], values)
    where_bad = np.argwhere(~matched)
    require(len(where_bad) == 0,
            lambda: f"{where}: {len(where_bad)} points hold no owner's value, first "
            f"{tuple(where_bad[0])}")
    return target
