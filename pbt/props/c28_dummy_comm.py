"""C28: the dummy communicator agrees with MPI on programs whose ranks run in turns.

A history of single-rank steps is executed on DummyComm objects; whether a step may proceed
is decided by a small model of what has been provided so far.  The projection of the history
onto each rank is then executed by the simulated MPI (pbt/sim.py) under a generated
schedule, and every rank must have received the same.

Five defects of DummyComm are recorded in KNOWN_FINDINGS.txt (the file is in a directory of
test support, which this work leaves as it is).  Generated programs stay clear of exactly
those, see DEFECTS; the probes in KNOWN show that each of them is still there.
"""
import copy

import numpy as np
from hypothesis import strategies as st

from ..arrays import encode, first_difference, same, seeds
from ..core import LCG, require
from ..sim import World

SHAPES = [(1,), (3,), (2, 2), (1, 3), (2, 1, 2)]
DTYPES = ["float64", "int32", "float32", "bool", "complex128", "int64"]

# what generated programs do not do
DEFECTS = {
    "early": "calling bcast or Scatter before the root has",
    "alias": "broadcasting an object that a rank changes afterwards",
    "gather": "calling a Gather while an earlier one is not complete, or calling any but "
              "the first too early on the root",
    "tag": "receiving by tag out of the order of sending",
    "split": "splitting a communicator",
}


def strategy(tier):
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(
                ["send", "send", "send", "send", "isend", "isend", "recv", "recv", "recv",
                 "irecv", "irecv", "wait", "wait", "wait", "collective", "collective",
                 "collective", "collective", "advance", "advance", "advance", "advance",
                 "advance", "advance", "advance", "split", "barrier", "bad_send", "bad_recv",
                 "finish"]),
            "kind": st.sampled_from(["bcast", "bcast", "Scatter", "Scatter", "Gather",
                                     "Gather"]),
            "rank": st.integers(0, 5),
            "peer": st.integers(0, 5),
            "group": st.integers(0, 3),
            "tag": st.sampled_from([0, 0, 0, 1, 2, -1, -1]),
            "seed": seeds,
        }
    )
    return st.fixed_dictionaries(
        {
            "n": st.integers(1, 6),
            "ops": st.lists(op, min_size=3, max_size=90 if tier == "thorough" else 45),
            "layout_seed": seeds,
            "sched": st.fixed_dictionaries({
                "mode": st.sampled_from(["eager", "late"]),
                "policy": st.sampled_from(["random", "roundrobin", "reverse", "greedy"]),
                "seed": seeds}),
        }
    )


class Group:
    """Ranks of one communicator and the model of what is in flight on it."""

    def __init__(self, gid, members, comms):
        self.gid = gid
        self.members = members  # global ranks, in the order of their ranks here
        self.comms = comms  # dummy comm per local rank
        self.collectives = []
        self.progress = [0] * len(members)
        self.contributed = {}  # (index, local rank)
        self.messages = {}  # (src, dst) -> list of [tag, number]
        self.posted = {}  # (src, dst) -> list of request records not yet waited for

    @property
    def n(self):
        return len(self.members)


class Player:
    def __init__(self, case, ctx, with_defect=None):
        self.avoid = set(DEFECTS) - {with_defect}
        import fv3gfs.util.testing as testing

        self.ctx = ctx
        # any error will do: it must not go on with data nobody provided
        self.error = Exception
        self.case = case
        self.n = case["n"]
        shared = {}
        comms = [testing.DummyComm(r, self.n, shared) for r in range(self.n)]
        self.groups = [Group(0, list(range(self.n)), comms)]
        self.logs = [[] for _ in range(self.n)]  # per global rank, for the simulated MPI
        self.got = {}  # event number -> what the dummy delivered
        self.held = []  # (object handed out, copy as its receiver left it)
        self.events = 0
        self.probes = 0

    # -- helpers
    def event(self):
        self.events += 1
        return self.events

    def spec(self, gid, src, dst):
        rng = LCG(self.case["layout_seed"] + 1009 * gid + 31 * src + dst)
        rng.next(7)
        return SHAPES[rng.next(len(SHAPES))], np.dtype(DTYPES[rng.next(len(DTYPES))]), \
            "CF"[rng.next(2)]

    def array(self, spec, seed):
        shape, dtype, order = spec
        ids = np.arange(int(np.prod(shape))).reshape(shape) + seed % 90001
        return np.asarray(encode(ids, dtype), order=order)

    def received(self, event, buffer, what, expected=None):
        """Record what a rank got, then let the rank change its own copy."""
        self.got[event] = copy.deepcopy(buffer)
        if isinstance(buffer, np.ndarray):
            buffer[...] = np.zeros((), buffer.dtype)
        elif isinstance(buffer, dict):
            buffer["a"][...] = -event
            buffer["list"].append(event)
            buffer["own"] = event
        self.held.append((buffer, copy.deepcopy(buffer)))

    def must_wait(self, function, what):
        """The rank asks for something not yet provided."""
        self.probes += 1
        self.ctx.label("asked too early")
        self.ctx.raises(self.error, function, what)

    # -- point to point
    def send(self, group, src, dst, op):
        event = self.event()
        tag = 0 if "tag" in self.avoid else max(op["tag"], 0)
        array = self.array(self.spec(group.gid, src, dst), op["seed"] + event)
        what = f"event {event}: rank {src} sends to {dst} with tag {tag}"
        original = array.copy(order="K")
        with self.ctx.sut(what):
            if op["op"] == "isend":
                group.comms[src].Isend(array, dest=dst, tag=tag).wait()
            elif op["seed"] % 3 == 0 and tag == 0:
                group.comms[src].Send(array, dst)  # the tag is optional
            else:
                group.comms[src].Send(array, dest=dst, tag=tag)
        require(same(array, original), f"{what}: the send buffer changed")
        array[...] = np.zeros((), array.dtype)  # the sender reuses its buffer
        group.messages.setdefault((src, dst), []).append([tag, event])
        self.logs[group.members[src]].append(
            ("send", group.gid, dst, tag, original, op["op"] == "isend"))

    def match(self, group, src, dst, tag):
        for k, (message_tag, _) in enumerate(group.messages.get((src, dst), [])):
            if tag in (message_tag, -1):
                return k
        return None

    def recv(self, group, src, dst, op):
        if group.posted.get((src, dst)):
            return  # requests of the same channel are completed first
        event = self.event()
        tag = min(op["tag"], 0) if "tag" in self.avoid else op["tag"]
        what = f"event {event}: rank {dst} receives from {src} with tag {tag}"
        spec = self.spec(group.gid, src, dst)
        buffer = np.zeros(spec[0], spec[1], order=spec[2])
        kwargs = {} if tag == -1 and op["seed"] % 2 else {"tag": tag}
        k = self.match(group, src, dst, tag)
        if k is None:
            self.must_wait(lambda: group.comms[dst].Recv(buffer, source=src, **kwargs), what)
            require(not buffer.any(), f"{what}: the buffer changed")
            return
        with self.ctx.sut(what):
            group.comms[dst].Recv(buffer, source=src, **kwargs)
        group.messages[src, dst].pop(k)
        self.logs[group.members[dst]].append(("recv", group.gid, src, tag, spec, event))
        self.received(event, buffer, what)
        self.ctx.label("recv with tag" if tag > 0 else "recv")

    def irecv(self, group, src, dst, op):
        event = self.event()
        tag = min(op["tag"], 0) if "tag" in self.avoid else op["tag"]
        what = f"event {event}: rank {dst} posts a receive from {src} with tag {tag}"
        spec = self.spec(group.gid, src, dst)
        buffer = np.zeros(spec[0], spec[1], order=spec[2])
        with self.ctx.sut(what):
            request = group.comms[dst].Irecv(buffer, source=src, tag=tag)
        group.posted.setdefault((src, dst), []).append((tag, request, buffer, event))
        self.logs[group.members[dst]].append(("irecv", group.gid, src, tag, spec, event))

    def wait(self, group, src, dst):
        posted = group.posted.get((src, dst))
        if not posted:
            return False
        tag, request, buffer, event = posted[0]
        what = f"event {event}: rank {dst} waits for its receive from {src} with tag {tag}"
        k = self.match(group, src, dst, tag)
        if k is None:
            self.must_wait(request.wait, what)
            require(not buffer.any(), f"{what}: the buffer changed")
            return True
        with self.ctx.sut(what):
            request.wait()
        group.messages[src, dst].pop(k)
        posted.pop(0)
        self.logs[group.members[dst]].append(("wait", event))
        self.received(event, buffer, what)
        self.ctx.label("irecv")
        return True

    def bad(self, group, src, dst, op):
        """Non-contiguous buffers are refused; no message is sent or lost."""
        shape, dtype, _ = self.spec(group.gid, src, dst)
        array = np.zeros(shape[:-1] + (2 * shape[-1] + 2,), dtype)[..., ::2]
        if array.flags.c_contiguous or array.flags.f_contiguous:
            return
        if op["op"] == "bad_send":
            self.ctx.raises(ValueError, lambda: group.comms[src].Send(array, dest=dst),
                            "sending from a non-contiguous buffer")
        elif not group.posted.get((src, dst)):
            self.ctx.raises(
                (ValueError, self.error),
                lambda: group.comms[dst].Recv(array, source=src),
                "receiving into a non-contiguous buffer")
        self.ctx.label(op["op"])

    # -- collectives
    def new_collective(self, group, op):
        kind = op["kind"]
        root = op["peer"] % group.n if kind == "Gather" else 0
        group.collectives.append((kind, root, op["seed"]))

    def stays_clear(self, group, me, index):
        """Whether this step would run into one of the recorded defects."""
        kind, root, _ = group.collectives[index]
        if kind != "Gather":
            return "early" in self.avoid and me != root and (
                (index, root) not in group.contributed)
        if "gather" not in self.avoid:
            return False
        earlier = [i for i in range(index) if group.collectives[i][0] == "Gather"]
        if any((i, r) not in group.contributed for i in earlier for r in range(group.n)):
            return True
        return bool(earlier) and me == root and any(
            (index, r) not in group.contributed for r in range(group.n) if r != me)

    def advance(self, group, me):
        """Rank `me` calls its next collective; False if there is none left."""
        index = group.progress[me]
        if index >= len(group.collectives):
            return False
        kind, root, seed = group.collectives[index]
        if self.stays_clear(group, me, index):
            return False
        comm = group.comms[me]
        rank = group.members[me]
        event = self.event()
        what = f"event {event}: rank {me} of {group.n} calls {kind} {index} with root {root}"
        spec = self.spec(group.gid, 77, index)
        ready = me == root or (index, root) in group.contributed
        if kind == "bcast":
            value = {"a": self.array(spec, seed), "list": [seed, "x"], "none": None}
            if "alias" in self.avoid:
                value = (seed, "x", None, (event % 2 == 0, 1.5))
            kwargs = {} if seed % 2 else {"root": root}
            arg = value if me == root else None
            if not ready:
                self.must_wait(lambda: comm.bcast(None, **kwargs), what)
                return True
            with self.ctx.sut(what):
                result = comm.bcast(arg, **kwargs)
            self.logs[rank].append(("bcast", group.gid, root, copy.deepcopy(arg), event))
            require(isinstance(result, (dict, tuple)), f"{what}: got {result!r}")
            self.received(event, result, what)
        elif kind == "Scatter":
            shape, dtype, _ = spec
            send = None
            if me == root:
                send = self.array(((group.n,) + shape, dtype, "C"), seed)
            buffer = np.zeros(shape, dtype)
            kwargs = {} if seed % 2 else {"root": root}
            if not ready:
                self.must_wait(lambda: comm.Scatter(None, buffer, **kwargs), what)
                require(not buffer.any(), f"{what}: the buffer changed")
                return True
            keep = copy.deepcopy(send)
            with self.ctx.sut(what):
                comm.Scatter(send, buffer, **kwargs)
            if me == root:
                require(same(send, keep), f"{what}: the send buffer changed")
                send[...] = np.zeros((), dtype)
            self.logs[rank].append(("Scatter", group.gid, root, keep, (shape, dtype), event))
            self.received(event, buffer, what)
        else:
            shape, dtype, _ = spec
            send = self.array((shape, dtype, "C"), seed + 1 + 13 * me)
            keep = send.copy()
            buffer = np.zeros((group.n,) + shape, dtype) if me == root else None
            if me == root and any(
                (index, r) not in group.contributed for r in range(group.n) if r != me
            ):
                self.must_wait(lambda: comm.Gather(send, buffer, root=root), what)
                require(not buffer.any(), f"{what}: the buffer changed")
                return True
            with self.ctx.sut(what):
                comm.Gather(send, buffer, root=root)
            require(same(send, keep), f"{what}: the send buffer changed")
            send[...] = np.zeros((), dtype)
            self.logs[rank].append(("Gather", group.gid, root, keep, buffer is not None,
                                    event))
            if me == root:
                self.received(event, buffer, what)
        group.contributed[index, me] = True
        group.progress[me] += 1
        self.ctx.label(kind)
        return True

    def finish(self, group):
        """Every rank completes the collectives that some rank has begun."""
        for index, (kind, root, _) in enumerate(group.collectives):
            others = [r for r in range(group.n) if r != root]
            order = others + [root] if kind == "Gather" else [root] + others
            for me in order:
                if group.progress[me] == index:
                    self.advance(group, me)
        require(all(p == len(group.collectives) for p in group.progress), "harness: finish")

    def split(self, group, op):
        if len(self.groups) >= 4 or "split" in self.avoid:
            return
        for g in self.groups:
            self.finish(g)
        rng = LCG(op["seed"])
        colors = [rng.next(1 + op["peer"] % 3) * 5 for _ in range(group.n)]
        comms = []
        for me in range(group.n):
            with self.ctx.sut(f"rank {me} splits by color {colors[me]}"):
                comms.append(group.comms[me].Split(color=colors[me], key=me))
        first = len(self.groups)
        chosen = {}
        for color in sorted(set(colors)):
            locals_ = [r for r in range(group.n) if colors[r] == color]
            gid = first + len(chosen)
            chosen[color] = gid
            self.groups.append(
                Group(gid, [group.members[r] for r in locals_], [comms[r] for r in locals_]))
            for k, r in enumerate(locals_):
                what = f"split into colors {colors}: rank {r}"
                require(comms[r].Get_rank() == k, f"{what} became {comms[r].Get_rank()}")
                require(comms[r].Get_size() == len(locals_),
                        f"{what} sees a size of {comms[r].Get_size()}")
        for me in range(group.n):
            self.logs[group.members[me]].append(
                ("split", group.gid, colors[me], chosen[colors[me]]))
        self.ctx.label("split")

    def barrier(self, group):
        for g in self.groups:
            self.finish(g)
        for me in range(group.n):
            with self.ctx.sut("barrier"):
                group.comms[me].barrier()
            self.logs[group.members[me]].append(("barrier", group.gid))

    def play(self):
        for op in self.case["ops"]:
            group = self.groups[op["group"] % len(self.groups)]
            me, peer = op["rank"] % group.n, op["peer"] % group.n
            kind = op["op"]
            if kind in ("send", "isend"):
                self.send(group, me, peer, op)
            elif kind == "recv":
                self.recv(group, peer, me, op)
            elif kind == "irecv":
                self.irecv(group, peer, me, op)
            elif kind == "wait":
                waiting = [k for k in sorted(group.posted) if group.posted[k]]
                if waiting:
                    self.wait(group, *waiting[op["rank"] % len(waiting)])
            elif kind == "collective":
                self.new_collective(group, op)
                self.advance(group, me)
            elif kind == "advance":
                self.advance(group, me)
            elif kind == "split":
                self.split(group, op)
            elif kind == "barrier":
                self.barrier(group)
            elif kind == "finish":
                self.finish(group)
            else:
                self.bad(group, me, peer, op)
        for group in list(self.groups):
            self.finish(group)
            for src, dst in sorted(group.posted):
                while group.posted[src, dst] and self.match(
                    group, src, dst, group.posted[src, dst][0][0]
                ) is not None:
                    self.wait(group, src, dst)
            # whatever was sent and not asked for yet is still there, in order
            for (src, dst), messages in sorted(group.messages.items()):
                if group.posted.get((src, dst)):
                    continue
                while messages:
                    self.recv(group, src, dst, {"tag": -1, "seed": 0})
        for buffer, left in self.held:
            require(equal(buffer, left),
                    "what one rank received changed after another rank went on")


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and same(a, b)
    return a == b


def rank_program(log):
    """The same steps of one rank, with the simulated MPI."""

    def run(comm):
        comms, requests, got = {0: comm}, {}, {}
        for entry in log:
            kind = entry[0]
            if kind == "send":
                _, gid, dst, tag, array, nonblocking = entry
                array = array.copy(order="K")
                if nonblocking:
                    comms[gid].Isend(array, dest=dst, tag=tag).wait()
                else:
                    comms[gid].Send(array, dest=dst, tag=tag)
                array[...] = np.zeros((), array.dtype)
            elif kind in ("recv", "irecv"):
                _, gid, src, tag, (shape, dtype, order), event = entry
                buffer = np.zeros(shape, dtype, order=order)
                request = comms[gid].Irecv(buffer, source=src, tag=tag)
                if kind == "recv":
                    request.wait()
                    got[event] = buffer
                else:
                    requests[event] = request, buffer
            elif kind == "wait":
                request, buffer = requests[entry[1]]
                request.wait()
                got[entry[1]] = buffer
            elif kind == "bcast":
                _, gid, root, arg, event = entry
                got[event] = comms[gid].bcast(arg, root=root)
            elif kind == "Scatter":
                _, gid, root, arg, (shape, dtype), event = entry
                got[event] = np.zeros(shape, dtype)
                comms[gid].Scatter(arg, got[event], root=root)
            elif kind == "Gather":
                _, gid, root, arg, is_root, event = entry
                buffer = None
                if is_root:
                    buffer = got[event] = np.zeros(
                        (comms[gid].Get_size(),) + arg.shape, arg.dtype)
                comms[gid].Gather(arg, buffer, root=root)
            elif kind == "split":
                _, gid, color, new = entry
                comms[new] = comms[gid].Split(color, comms[gid].Get_rank())
            else:
                comms[entry[1]].barrier()
        return got

    return run


def op(kind, rank=0, peer=0, tag=0, seed=0, collective="bcast"):
    return {"op": kind, "kind": collective, "rank": rank, "peer": peer, "group": 0,
            "tag": tag, "seed": seed}


class Probe:
    """A fixed program that shows a recorded defect."""

    def __init__(self, key, ops):
        self.key, self.ops = key, ops

    def check(self, case, ctx):
        check({"n": 2, "layout_seed": 0, "ops": self.ops, "sched": {
            "mode": "eager", "policy": "roundrobin", "seed": 0}}, ctx, self.key)


KNOWN = {
    # rank 1 asks for a broadcast, is refused, and asks again once the root has called
    "early": Probe("early", [op("collective", rank=1), op("advance", rank=0),
                             op("advance", rank=1)]),
    # rank 1 changes the object it has received
    "alias": Probe("alias", [op("collective", rank=0), op("advance", rank=1)]),
    # rank 1 gathers twice before the root does
    "gather": Probe("gather", [
        op("collective", rank=1, peer=0, seed=5, collective="Gather"),
        op("collective", rank=1, peer=0, seed=9, collective="Gather"),
        op("advance", rank=1), op("advance", rank=0), op("advance", rank=0)]),
    # rank 1 receives the second message first
    "tag": Probe("tag", [op("send", 0, 1, tag=1, seed=3), op("send", 0, 1, tag=2, seed=8),
                         op("recv", 1, 0, tag=2), op("recv", 1, 0, tag=1)]),
    # both ranks join one group
    "split": Probe("split", [op("split", seed=1)]),
}


def check(case, ctx, with_defect=None):
    player = Player(case, ctx, with_defect)
    player.play()
    sched = case["sched"]
    world = World(player.n, sched["mode"], sched["policy"], sched["seed"])
    programs = [rank_program(log) for log in player.logs]
    results = world.run(lambda comm: programs[comm.Get_rank()](comm))
    wanted = {}
    for result in results:
        wanted.update(result)
    require(set(wanted) == set(player.got),
            f"harness: events {sorted(set(wanted) ^ set(player.got))}")
    for event in sorted(wanted):
        a, b = player.got[event], wanted[event]
        if not equal(a, b):
            kinds = [e for log in player.logs for e in log if e[-1] == event]
            detail = first_difference(a, b) if isinstance(a, np.ndarray) else f"{a} != {b}"
            require(False, f"event {event} {kinds}: the dummy delivered other data: {detail}")
    ctx.label("ranks", player.n)
    ctx.nontrivial(player.n > 1 and len(wanted) >= 3)
